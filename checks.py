R_SEQ = 'a case is non-trivial if it executed at least one recorded operation; distinct cases differ in the hash of (workload, operation list with arguments)'
R_CONC = 'a case is non-trivial if its threads really ran on one shared object; distinct cases differ in the hash of (workload, per-thread plan, observed order or final content)'
CHECKS = {
 'S01': dict(runs=[('S01', 'asan', 8)], rule=R_SEQ, must_observe=['borders_found', 'borders_absent']),
 'S02': dict(runs=[('S02', 'asan', 8)], rule=R_SEQ, must_observe=['long_results', 'padded_percents']),
 'S03': dict(runs=[('S03', 'asan', 8)], rule=R_SEQ, must_observe=['borders_found', 'borders_absent']),
 'S04': dict(runs=[('S04', 'asan', 8)], rule=R_SEQ, must_observe=['borders_found', 'borders_absent']),
 'S05': dict(runs=[('S05', 'tsan', 4), ('S05', 'plain', 4)], rule=R_CONC,
             must_observe=['overlapping_pairs', 'histories_checked', 'writer_switches', 'snapshots', 'delays_injected']),
 'N01': dict(runs=[('N01', 'asan', 8)], rule=R_SEQ, must_observe=['accepted', 'rejected']),
 'N02': dict(runs=[('N02', 'asan', 8)], rule=R_SEQ),
 'N03': dict(runs=[('N03', 'asan', 8)], rule=R_SEQ, must_observe=['smallest_over_minus_one', 'zero_divisors']),
 'N04': dict(runs=[('N04', 'asan', 8)], rule=R_SEQ, must_observe=['accepted', 'rejected', 'subnormals', 'nan_comparisons', 'equal_pairs']),
 'N05': dict(runs=[('N05', 'asan', 8)], rule=R_SEQ, must_observe=['exact_in_range', 'exact_overflows', 'zero_divisors', 'nan_operands', 'subnormals']),
 'N06': dict(runs=[('N06', 'asan', 8)], rule=R_SEQ, must_observe=['byte_pairs', 'char_pairs', 'accepted', 'rejected', 'true_texts', 'false_texts', 'zero_divisors']),
 'L01': dict(runs=[('L01', 'asan', 8)], rule=R_SEQ, must_observe=['rejected_indexes', 'insert_at_end', 'long_lists']),
 'L02': dict(runs=[('L02', 'asan', 8)], rule=R_SEQ, must_observe=['rejected_indexes', 'growths', 'aliased_adds', 'empty_ends', 'empty_pops', 'pops']),
 'L03': dict(runs=[('L03', 'asan', 8)], rule=R_SEQ, must_observe=['removed_by_copied_nodes', 'rejected_indexes', 'empty_ends', 'drained']),
 'L04': dict(runs=[('L04', 'asan', 8)], rule=R_SEQ, must_observe=['drained', 'empty_polls', 'inner_removals', 'duplicates']),
 'H01': dict(runs=[('H01', 'asan', 8)], rule=R_SEQ, must_observe=['overwrites', 'removals', 'conditional_hits', 'conditional_misses', 'big_maps']),
 'A01': dict(runs=[('A01', 'asan', 8)], rule=R_SEQ, must_observe=['big_sorts', 'range_sorts', 'keys_found', 'keys_absent', 'single_element_ranges', 'ranges_to_end', 'bad_ranges', 'bad_indexes']),
 'B01': dict(runs=[('B01', 'asan', 8)], rule=R_SEQ, must_observe=['multiword_ranges', 'ranges_to_word_end', 'slices', 'self_assignments', 'equal_pairs', 'intersecting_pairs', 'disjoint_pairs', 'rejected']),
 'T02': dict(runs=[('T02', 'tsan', 4), ('T02', 'plain', 4)], rule=R_CONC, must_observe=['handovers', 'grants', 'refusals', 'waiters_admitted', 'bulk_releases', 'timeouts', 'late_grants', 'histories_checked', 'overlapping_pairs', 'crowd_grants', 'rejected']),
 'T01': dict(runs=[('T01', 'tsan', 4), ('T01', 'asan', 2), ('T01', 'plain', 4)], rule=R_CONC, must_observe=['alive_samples', 'subclass_threads', 'function_threads', 'target_threads', 'destroyed_unjoined', 'timed_joins', 'threads_joined', 'repeated_starts', 'held_joins', 'detached_joined', 'detached_abandoned', 'identities', 'live_ids']),
 'T03': dict(runs=[('T03', 'tsan', 8), ('T03', 'asan', 4), ('T03', 'plain', 4)], rule=R_CONC, must_observe=['tight_removals', 'tight_reads', 'packed_steps', 'histories_checked', 'overlapping_pairs', 'values_removed', 'keys_inserted', 'cas_retries', 'copies_compared', 'displaced_reads', 'resized_keys']),
 'T04': dict(runs=[('T04', 'asan', 4), ('T04', 'plain', 8)], rule=R_CONC, must_observe=['memory_watched', 'threads_with_elements', 'largest_backlogs', 'delivered', 'empty_polls', 'producer_switches', 'producing_consumers', 'clears']),
 'C01': dict(runs=[('C01', 'asan', 8)], rule=R_SEQ, must_observe=['accepted', 'rejected', 'mime_accepted', 'mime_rejected', 'partial_groups', 'broken_lines', 'short_lines', 'small_outputs', 'separator_rejected']),
 'C02': dict(runs=[('C02', 'asan', 8), ('C02', 'plain', 4), ('C02', 'tsan', 4)], rule=R_SEQ, must_observe=['large_messages', 'digests', 'empty_digests', 'two_block_paddings', 'resets_with_pending_input', 'refusals', 'copies', 'lengths_swept', 'length_carries', 'concurrent_digests', 'unknown_algorithms']),
 'C03': dict(runs=[('C03', 'asan', 8)], rule=R_SEQ, must_observe=['nul_bytes', 'high_bytes', 'escaped_specials', 'bytes_swept', 'accepted', 'malformed_rejected', 'truncated_escapes', 'unknown_encodings']),
 'U01': dict(runs=[('U01', 'asan', 8), ('U01', 'tsan', 4), ('U01', 'plain', 4)], rule=R_SEQ, must_observe=['variant_0', 'variant_2', 'variant_6_7', 'time_based', 'least_bits_compared', 'accepted', 'short_groups_accepted', 'malformed_rejected', 'time_uuids', 'random_uuids', 'bit_balance_checked', 'concurrent_generations']),
 'R01': dict(runs=[('R01', 'asan', 8), ('R01', 'tsan', 4), ('R01', 'plain', 4)], rule=R_SEQ, must_observe=['rejected_draws', 'power_of_two_bounds', 'spare_gaussians', 'spares_discarded', 'partial_words', 'bad_arguments', 'copies_with_spare', 'shared_draws', 'shared_gaussians', 'reseeds', 'default_seeds']),
 'M01': dict(runs=[('M01', 'asan', 8)], rule=R_SEQ, must_observe=['built', 'refused', 'parameters', 'compatible', 'incompatible', 'suffix_matches', 'suffix_mismatches', 'suffixes_of_several_parts', 'texts_accepted', 'texts_refused', 'parameters_cut', 'constants']),
 'E01': dict(runs=[('E01', 'asan', 8)], rule=R_SEQ, must_observe=['caught_as_supertype', 'passed_unrelated_handler', 'with_cause', 'empty_messages', 'links_walked', 'valued_messages']),
 'K01': dict(runs=[('K01', 'asan', 8)], rule=R_SEQ, must_observe=['library_exceptions', 'foreign_exceptions', 'explicit_exits', 'sudden_deaths', 'normal_returns', 'no_arguments', 'arguments', 'processes', 'set_names', 'unset_names', 'clock_readings']),
 'D01': dict(runs=[('D01', 'asan', 8)], rule=R_SEQ, must_observe=['fractions_before_epoch', 'fractions_kept', 'repeated_hours', 'skipped_hours', 'fields_set', 'equal_dates', 'different_dates', 'utc_times', 'current_times', 'two_digit_years', 'twelve_hour_times', 'numeric_zones', 'zoned_texts', 'local_texts', 'named_zone_round_trips', 'gmt_round_trips', 'malformed_texts', 'any_accepted', 'any_refused', 'formatted', 'long_texts', 'empty_texts', 'default_zone']),
 'X01': dict(runs=[('X01', 'asan', 8)] + [(d, 'leak', 8) for d in ('S01', 'S02', 'S03', 'S04', 'N01', 'N02', 'N03', 'N04', 'N05', 'N06', 'L01', 'L02', 'L03', 'L04', 'H01', 'A01', 'B01', 'C01', 'C02', 'C03', 'U01', 'R01', 'D01', 'M01', 'E01', 'K02', 'K03')], rule=R_SEQ, must_observe=['destroyed_through_a_base', 'steady_cases', 'self_assignments', 'assignments', 'changed_copies', 'containers', 'survivors', 'steady_histories', 'completed_calls', 'refused_calls']),
 'X03': dict(runs=[(d, 'vg', 8) for d in ('S01', 'S02', 'S03', 'S04', 'N01', 'N02', 'N03', 'N04', 'N05', 'N06', 'L01', 'L02', 'L03', 'L04', 'H01', 'A01', 'B01', 'C01', 'C02', 'C03', 'U01', 'R01', 'D01', 'M01', 'E01')],
             rule=R_SEQ, budget=(0.5, 30), must_observe=['memcheck_runs']),
 'X02': dict(runs=[('X02', 'tsan', 8), ('X02', 'plain', 8)], rule=R_CONC, must_observe=['overlapping_runs', 'compared_tasks', 'threads', 'twin_threads']),
 'K02': dict(runs=[('K02', 'asan', 8)], rule=R_SEQ, must_observe=['copies', 'equal_pairs', 'colliding_pairs', 'different_pairs', 'same_object_pairs']),
 'K04': dict(runs=[('K04', 'plain', 8)], rule=R_SEQ, must_observe=['failing_assertions', 'holding_assertions', 'skipped', 'filtered_out', 'fixtures', 'log_lines', 'failing_runs', 'passing_runs', 'long_messages']),
 'K03': dict(runs=[('K03', 'asan', 8)], rule=R_SEQ, must_observe=['settings_changed', 'fresh_connections', 'copied_connections', 'assigned_connections', 'answers', 'methods_set']),
}
