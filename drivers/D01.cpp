// D01: Date, SimpleDateFormat and TimeZone against civil-calendar arithmetic and the zone rules of libc.
#include "lib.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
using mon::Ctx;
using mon::Rng;
using Java::Util::Date;
using Java::Util::TimeZone;
using Java::Text::SimpleDateFormat;
typedef Java::Lang::String S;
typedef long long ll;
// ---- civil calendar, counted in days from 1970-01-01 (proleptic Gregorian)
static ll floordiv(ll a, ll b) { ll q = a / b; return q - (a % b != 0 && (a % b < 0) != (b < 0)); }
static ll dayNumber(ll y, ll m, ll d) {              // m 0-based, any values
    y += floordiv(m, 12); m -= floordiv(m, 12) * 12;
    ll yy = m < 2 ? y - 1 : y, era = floordiv(yy, 400), yoe = yy - era * 400, mp = (m + 10) % 12, doy = (153 * mp + 2) / 5;
    return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 + d - 1;
}
struct F { ll y, mo, d, h, mi, s; int wd; bool operator==(const F &o) const { return y == o.y && mo == o.mo && d == o.d && h == o.h && mi == o.mi && s == o.s && wd == o.wd; } };
static F civil(ll sec) {                             // fields of a local second count, full year
    F f; ll day = floordiv(sec, 86400), r = sec - day * 86400;
    f.h = r / 3600; f.mi = r / 60 % 60; f.s = r % 60;
    f.wd = (int) (((day % 7) + 11) % 7);
    ll lo = floordiv(day, 366) + 1970 - 2, hi = floordiv(day, 365) + 1970 + 2;
    if (lo > hi) std::swap(lo, hi);
    lo -= 2; hi += 2;
    while (hi - lo > 1) { ll m = (lo + hi) / 2; (dayNumber(m, 0, 1) <= day ? lo : hi) = m; }
    f.y = lo; f.mo = 11;
    while (dayNumber(f.y, f.mo, 1) > day) --f.mo;
    f.d = day - dayNumber(f.y, f.mo, 1) + 1;
    return f;
}
static ll local(ll y, ll mo, ll d, ll h, ll mi, ll s) { return dayNumber(y, mo, d) * 86400 + h * 3600 + mi * 60 + s; }
static Str show(const F &f) { return std::to_string(f.y) + "-" + std::to_string(f.mo + 1) + "-" + std::to_string(f.d) + " " + std::to_string(f.h) + ":" + std::to_string(f.mi) + ":" + std::to_string(f.s) + " wd" + std::to_string(f.wd); }
// ---- zones: standard offset, saving offset, and whether saving time applies, decided by the monitor itself
struct Zone { const char *tz, *std, *dst; ll off, doff; int m1, w1, m2, w2; ll at1, at2; };   // month 0-based, week 1..5, Sundays, local wall times
static const Zone ZONES[] = {
    {"UTC", "UTC", "", 0, 0, 0, 0, 0, 0, 0, 0},
    {"ICT-7", "ICT", "", 25200, 25200, 0, 0, 0, 0, 0, 0},
    {"XST-5:30", "XST", "", 19800, 19800, 0, 0, 0, 0, 0, 0},
    {"NPT-5:45", "NPT", "", 20700, 20700, 0, 0, 0, 0, 0, 0},
    {"LMT-0:19:32", "LMT", "", 1172, 1172, 0, 0, 0, 0, 0, 0},
    {"WST12", "WST", "", -43200, -43200, 0, 0, 0, 0, 0, 0},
    {"NST3:30:20", "NST", "", -12620, -12620, 0, 0, 0, 0, 0, 0},
    {"EST5EDT,M3.2.0,M11.1.0", "EST", "EDT", -18000, -14400, 2, 2, 10, 1, 7200, 7200},
    {"PST8PDT,M3.2.0,M11.1.0", "PST", "PDT", -28800, -25200, 2, 2, 10, 1, 7200, 7200},
    {"CET-1CEST,M3.5.0,M10.5.0/3", "CET", "CEST", 3600, 7200, 2, 5, 9, 5, 7200, 10800},
    {"LHST-10:30LHDT-11,M10.1.0,M4.1.0", "LHST", "LHDT", 37800, 39600, 9, 1, 3, 1, 7200, 7200},
};
static ll sunday(ll y, int m, int w) {
    ll first = dayNumber(y, m, 1); int wd = (int) (((first % 7) + 11) % 7);
    ll d = first + (7 - wd) % 7 + 7 * (w - 1);
    while (d >= dayNumber(y, m + 1, 1)) d -= 7;
    return d;
}
static bool saving(const Zone &z, ll t) {
    if (z.off == z.doff) return false;
    ll y = std::max(civil(t + z.off).y, (ll) 1970);  // libc applies the rules of 1970 to every earlier year
    ll a = sunday(y, z.m1, z.w1) * 86400 + z.at1 - z.off, b = sunday(y, z.m2, z.w2) * 86400 + z.at2 - z.doff;
    return a < b ? t >= a && t < b : !(t >= b && t < a);
}
static ll offset(const Zone &z, ll t) { return saving(z, t) ? z.doff : z.off; }
// the instants whose local reading is l; two in a repeated hour, none in a skipped one
static std::vector<ll> instants(const Zone &z, ll l) {
    std::vector<ll> r;
    for (ll o : {z.off, z.doff}) if (offset(z, l - o) == o && (r.empty() || r[0] != l - o)) r.push_back(l - o);
    return r;
}
static const char *MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char *MONTH[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static const char *DAY[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static Str pad(ll v, int w) { char b[40]; snprintf(b, sizeof b, "%0*lld", w, v); return b; }
static Str hms(const F &f) { return pad(f.h, 2) + ":" + pad(f.mi, 2) + ":" + pad(f.s, 2); }
static const Zone &useZone(Ctx &c) {
    const Zone &z = ZONES[c.r.upto(sizeof ZONES / sizeof *ZONES)];
    setenv("TZ", z.tz, 1);                              // no tzset: taking notice of it is the library's part
    OP("TZ", Str(z.tz));
    return z;
}
// ---- what a Date must show for an instant
static void look(Ctx &c, const Zone &z, const Date &d, ll ms, const Str &how) {
    c.eq((ll) d.getTime(), ms, "Date.getTime " + how);
    ll t = floordiv(ms, 1000), o = offset(z, t);
    F f = civil(t + o);
    F g{(ll) d.getYear() + 1900, d.getMonth(), d.getDate(), d.getHours(), d.getMinutes(), d.getSeconds(), d.getDay()};
    c.check(f == g, "Date.fields " + how, "fields " + show(g) + " want " + show(f) + " at " + std::to_string(ms));
    c.eq(d.getTimezoneOffset(), (int) -(o / 60), "Date.getTimezoneOffset");
    c.eq(N(d.toString()), Str(DAY[f.wd]) + " " + MON[f.mo] + " " + pad(f.d, 2) + " " + hms(f) + " " + (saving(z, t) ? z.dst : z.std) + " " + std::to_string(f.y), "Date.toString " + how);
}
static void texts(Ctx &c, const Zone &z, const Date &d, ll ms) {
    ll t = floordiv(ms, 1000);
    F f = civil(t + offset(z, t)), u = civil(t);
    ll h12 = f.h % 12 ? f.h % 12 : 12;
    c.eq(N(d.toLocaleString()), Str(MON[f.mo]) + " " + pad(f.d, 2) + ", " + std::to_string(f.y) + " " + pad(h12, 2) + ":" + pad(f.mi, 2) + ":" + pad(f.s, 2) + (f.h < 12 ? " AM" : " PM"), "Date.toLocaleString");
    c.eq(N(d.toGMTString()), pad(u.d, 2) + " " + MON[u.mo] + " " + std::to_string(u.y) + " " + hms(u) + " GMT", "Date.toGMTString");
}
static ll instant(Rng &r, const Zone &z) {
    switch (r.upto(6)) {
        case 0: return (ll) r.range(-100000, 100000);
        case 1: return (ll) r.range(-2000, 2000) * 86400000LL + (ll) r.range(-3, 3);
        case 2: case 3: if (z.off != z.doff) {       // around a change of the zone's offset
            ll y = 1971 + r.upto(150);
            ll a = r.chance(50) ? sunday(y, z.m1, z.w1) * 86400 + z.at1 - z.off : sunday(y, z.m2, z.w2) * 86400 + z.at2 - z.doff;
            return (a + (ll) r.range(-5400, 5400) + (r.chance(20) ? (ll) r.range(-2, 2) : 0)) * 1000 + r.upto(1000);
        }   // fall through
        case 4: return (ll) r.range(-20000000000000LL, 60000000000000LL);
        default: return (ll) r.range(-1000000000000LL, 4000000000000LL);
    }
}
struct D { Date d; ll ms; };
static ll fieldOf(Rng &r, int w) { static const int top[] = {12, 31, 24, 60, 60}; return r.chance(70) ? r.upto(top[w]) + (w == 1) : (ll) r.range(-200, 200); }
WORKLOAD(histories, 12000, 400000) {
    const Zone &z = useZone(c);
    std::vector<D *> ds;
    struct Free { std::vector<D *> &v; ~Free() { for (D *d : v) delete d; } } fr{ds};
    int steps = 4 + c.r.upto(20);
    for (int s = 0; s < steps; ++s) {
        size_t i = ds.empty() ? 0 : (size_t) c.r.upto((int) ds.size());
        int w = ds.empty() ? c.r.upto(4) : c.r.upto(16);
        if (w < 4 && ds.size() >= 4) { OP("delete", (int) i); delete ds[i]; ds.erase(ds.begin() + (long) i); continue; }
        if (w == 0 || w == 1) {
            ll ms = instant(c.r, z);
            if (!ds.empty() && c.r.chance(40)) {        // a neighbour, often inside the same second
                ll b = ds[i]->ms;
                ms = c.r.chance(60) ? floordiv(b, 1000) * 1000 + c.r.upto(1000) : b + c.r.range(-1, 1) * (c.r.chance(50) ? 1 : 1000);
                if (ms != b && floordiv(ms, 1000) == floordiv(b, 1000)) c.ev("same_second");
            }
            OP("Date", (long) ms);
            ds.push_back(new D{Date((long) ms), ms});
            if (ms < 0 && ms % 1000) c.ev("fractions_before_epoch");
        } else if (w == 2) {
            int n = c.r.upto(3), v[6] = {c.r.chance(90) ? 1 + c.r.upto(300) : (int) c.r.range(-5000, 5000), (int) fieldOf(c.r, 0), (int) fieldOf(c.r, 1), n > 0 ? (int) fieldOf(c.r, 2) : 0, n > 0 ? (int) fieldOf(c.r, 3) : 0, n > 1 ? (int) fieldOf(c.r, 4) : 0};
            OP("Date", v[0], v[1], v[2], v[3], v[4], v[5]);
            ll l = local((ll) v[0] + 1900, v[1], v[2], v[3], v[4], v[5]);
            std::vector<ll> ok = instants(z, l);
            D *d = new D{n == 0 ? Date(v[0], v[1], v[2]) : n == 1 ? Date(v[0], v[1], v[2], v[3], v[4]) : Date(v[0], v[1], v[2], v[3], v[4], v[5]), 0};
            ds.push_back(d);
            d->ms = (ll) d->d.getTime();
            if (ok.empty()) c.ev("skipped_hours");
            else { bool in = false; for (ll t : ok) in = in || t * 1000 == d->ms; c.check(in, "Date.field-constructor", "instant " + std::to_string(d->ms) + " does not read as the given fields, want " + std::to_string(ok[0] * 1000)); if (ok.size() > 1) c.ev("repeated_hours"); }
        } else if (w == 3 && !ds.empty()) {
            OP("copy", (int) i);
            ds.push_back(c.r.chance(50) ? new D(*ds[i]) : new D{ds[i]->d.clone(), ds[i]->ms});
            i = ds.size() - 1;
        } else if (w == 4 && !ds.empty()) {
            size_t j = (size_t) c.r.upto((int) ds.size());
            OP("assign", (int) j, (int) i);
            ds[j]->d = ds[i]->d; ds[j]->ms = ds[i]->ms;
        } else if (w == 5 && !ds.empty()) {
            ll ms = instant(c.r, z);
            OP("setTime", (int) i, (long) ms);
            ds[i]->d.setTime((long) ms); ds[i]->ms = ms;
        } else if (!ds.empty()) {
            ll t = floordiv(ds[i]->ms, 1000), frac = ds[i]->ms - t * 1000;
            F f = civil(t + offset(z, t));
            int k = c.r.upto(6);
            ll v = k == 5 ? (ll) (c.r.chance(90) ? 1 + c.r.upto(300) : (int) c.r.range(-5000, 5000)) : fieldOf(c.r, k);
            OP("set", (int) i, k, (long) v);
            Date &d = ds[i]->d;
            switch (k) {
                case 0: d.setMonth((int) v); f.mo = v; break;
                case 1: d.setDate((int) v); f.d = v; break;
                case 2: d.setHours((int) v); f.h = v; break;
                case 3: d.setMinutes((int) v); f.mi = v; break;
                case 4: d.setSeconds((int) v); f.s = v; break;
                default: d.setYear((int) v); f.y = v + 1900;
            }
            std::vector<ll> ok = instants(z, local(f.y, f.mo, f.d, f.h, f.mi, f.s));
            ds[i]->ms = (ll) d.getTime();
            if (ok.empty()) c.ev("skipped_hours");
            else { bool in = false; for (ll q : ok) in = in || q * 1000 + frac == ds[i]->ms; c.check(in, "Date.setter", "instant " + std::to_string(ds[i]->ms) + " want " + std::to_string(ok[0] * 1000 + frac)); if (ok.size() > 1) c.ev("repeated_hours"); if (frac) c.ev("fractions_kept"); }
            c.ev("fields_set");
        }
        if (ds.empty()) continue;
        for (D *d : ds) look(c, z, d->d, d->ms, d == ds[std::min(i, ds.size() - 1)] ? "" : "of another Date");
        if (c.r.chance(30)) texts(c, z, ds[std::min(i, ds.size() - 1)]->d, ds[std::min(i, ds.size() - 1)]->ms);
    }
    for (D *a : ds) for (D *b : ds) {
        int want = a->ms < b->ms ? -1 : a->ms > b->ms;
        c.eq(a->d.compareTo(b->d), want, "Date.compareTo");
        c.eq((bool) a->d.before(b->d), want < 0, "Date.before");
        c.eq((bool) a->d.after(b->d), want > 0, "Date.after");
        c.eq((bool) a->d.equals(b->d), want == 0, "Date.equals");
        if (!want) c.eq(a->d.hashCode(), b->d.hashCode(), "Date.hashCode-of-equals");
        c.ev(a == b ? "self_comparisons" : want ? "different_dates" : "equal_dates");
    }
}
WORKLOAD(utc, 8000, 200000) {
    const Zone &z = useZone(c); (void) z;
    int v[6] = {1 + c.r.upto(300), (int) fieldOf(c.r, 0), (int) fieldOf(c.r, 1), (int) fieldOf(c.r, 2), (int) fieldOf(c.r, 3), (int) fieldOf(c.r, 4)};
    OP("UTC", v[0], v[1], v[2], v[3], v[4], v[5]);
    c.eq((ll) Date::UTC(v[0], v[1], v[2], v[3], v[4], v[5]), local((ll) v[0] + 1900, v[1], v[2], v[3], v[4], v[5]) * 1000, "Date.UTC");
    c.ev("utc_times");
}
WORKLOAD(now, 400, 4000) {
    const Zone &z = useZone(c);
    OP("Date()");
    time_t a = time(nullptr);
    Date d;
    time_t b = time(nullptr);
    ll ms = (ll) d.getTime();
    if (a <= b) c.check(ms >= (ll) a * 1000 && ms < (ll) (b + 1) * 1000, "Date.now", std::to_string(ms) + " outside " + std::to_string(a) + ".." + std::to_string(b));
    look(c, z, d, ms, "of now");
    c.ev("current_times");
}
// ---- texts with known meaning
static Str cased(Rng &r, Str s) { int k = r.upto(4); for (char &ch : s) if (k == 1 || (k == 2 && r.chance(50))) ch = (char) (r.chance(50) ? toupper(ch) : tolower(ch)); return s; }
static Str word(Rng &r, const Str &full) { size_t n = r.chance(50) ? full.size() : std::min(full.size(), (size_t) 3 + (size_t) r.upto(4)); return cased(r, full.substr(0, n)); }
static Str gap(Rng &r) { switch (r.upto(6)) { case 0: return "  "; case 1: return ", "; case 2: return " (note) "; case 3: return "\t"; default: return " "; } }
static void expect(Ctx &c, const Str &s, const std::vector<ll> &ok) {
    ll got = 0;
    S in = J(s);
    Str ex = thrown([&]() { got = (ll) Date::parse(in); });
    c.eq(ex, Str(""), "Date.parse-rejects-valid");
    bool hit = false;
    for (ll t : ok) hit = hit || t * 1000 == got;
    c.check(hit, "Date.parse", "got " + std::to_string(got) + " want " + std::to_string(ok[0] * 1000) + " for " + esc(s));
    c.eq(N(in), s, "Date.parse-changes-input");
    Date d(in);
    c.eq((ll) d.getTime(), got, "Date.Date(String)");
}
WORKLOAD(parse_valid, 25000, 800000) {
    const Zone &z = useZone(c);
    static const char *days[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
    struct Z { const char *n; int min; };
    static const Z names[] = {{"gmt", 0}, {"ut", 0}, {"utc", 0}, {"est", 300}, {"edt", 240}, {"cst", 360}, {"cdt", 300}, {"mst", 420}, {"mdt", 360}, {"pst", 480}, {"pdt", 420}};
    ll y = 1900 + c.r.upto(300), mo = c.r.upto(12), d = 1 + c.r.upto((int) (dayNumber(y, mo + 1, 1) - dayNumber(y, mo, 1))), h = c.r.upto(24), mi = c.r.upto(60), s = c.r.upto(60);
    int parts = c.r.upto(4);                        // no time, h:mm, h:mm:ss, 12-hour
    if (parts == 0) h = mi = s = 0;
    if (parts == 1) s = 0;
    Str year = std::to_string(y);
    if (c.r.chance(15)) {                           // two digits mean 80 years back to 20 years ahead
        time_t now = time(nullptr);
        ll start = civil(now + offset(z, now)).y - 80;
        y = start + c.r.upto(100);
        if (y % 100 < 70 || c.r.chance(50)) { year = pad(y % 100, 2); c.ev("two_digit_years"); } else year = std::to_string(y);
        ll last = dayNumber(y, mo + 1, 1) - dayNumber(y, mo, 1);
        if (d > last) d = last;
    }
    bool ancient = c.r.chance(8);                   // three digits are a full year
    if (ancient) {
        y = c.r.chance(30) ? 100 + c.r.upto(3) : c.r.chance(50) ? 997 + c.r.upto(6) : 100 + c.r.upto(1800);
        year = std::to_string(y);
        ll last = dayNumber(y, mo + 1, 1) - dayNumber(y, mo, 1);
        if (d > last) d = last;
        c.ev("early_years");
    }
    Str g1 = gap(c.r), g2 = gap(c.r), g3 = gap(c.r), g4 = gap(c.r), date, time;
    bool slash = c.r.chance(25);
    if (slash) date = std::to_string(mo + 1) + "/" + std::to_string(d) + "/" + year;
    else if (c.r.chance(50)) date = word(c.r, MONTH[mo]) + g1 + std::to_string(d) + g2 + year;
    else date = std::to_string(d) + g1 + word(c.r, MONTH[mo]) + g2 + year;
    if (parts == 3) { ll h12 = h % 12 ? h % 12 : 12; time = std::to_string(h12) + ":" + pad(mi, 2); if (c.r.chance(50)) time += ":" + pad(s, 2); else s = 0; time += (c.r.chance(50) ? " " : "  ") + cased(c.r, h < 12 ? "am" : "pm"); c.ev("twelve_hour_times"); }
    else if (parts) time = std::to_string(h) + ":" + pad(mi, 2) + (parts == 2 ? ":" + pad(s, 2) : Str(""));
    bool zoned = ancient || c.r.chance(60);
    ll zmin = 0;
    Str zone;
    if (zoned) {
        int k = c.r.upto(3);
        if (k == 0) { const Z &n = names[c.r.upto(11)]; zone = cased(c.r, n.n); zmin = n.min; }
        else {
            int hh = c.r.upto(24), mm = k == 1 ? 0 : c.r.upto(60); bool east = c.r.chance(50);
            if (hh * 100 + mm < 24 && k == 2) hh += 1;
            zone = (c.r.chance(60) ? cased(c.r, c.r.pick(std::vector<Str>{"gmt", "utc", "ut"})) + (c.r.chance(50) ? " " : "") : Str("")) + (east ? "+" : "-") + (k == 1 ? std::to_string(hh) : pad(hh, 2) + pad(mm, 2));
            zmin = (east ? -1 : 1) * (hh * 60 + mm);
            c.ev("numeric_zones");
        }
    }
    Str t = c.r.chance(50) ? word(c.r, days[c.r.upto(7)]) + g3 : Str("");
    t += date;
    if (!time.empty()) t += g4 + time;
    if (zoned) t += " " + zone;
    if (c.r.chance(10)) t += c.r.chance(50) ? " (a remark)" : "  ";
    OP("parse", t);
    ll l = local(y, mo, d, h, mi, s);
    std::vector<ll> ok;
    if (zoned) ok.push_back(l + zmin * 60); else ok = instants(z, l);
    if (ok.empty()) { thrown([&]() { Date::parse(J(t)); }); c.ev("skipped_hours"); return; }
    expect(c, t, ok);
    c.ev(zoned ? "zoned_texts" : "local_texts");
}
// what a Date prints in GMT, or in a zone whose name parse knows, reads back as the same second
WORKLOAD(round_trip, 10000, 300000) {
    const Zone &z = useZone(c);
    ll ms = (ll) c.r.range(-2208988800000LL, 250000000000000LL);
    if (c.r.chance(40)) { ms = instant(c.r, z); if (ms < -2000000000000LL || ms > 250000000000000LL) ms = 12345678; }
    OP("print and parse", (long) ms);
    Date d((long) ms);
    ll t = floordiv(ms, 1000);
    expect(c, N(d.toGMTString()), {t});
    Str zn = saving(z, t) ? z.dst : z.std;
    if (zn == "UTC" || zn == "EST" || zn == "EDT" || zn == "PST" || zn == "PDT") { expect(c, N(d.toString()), {t}); c.ev("named_zone_round_trips"); }
    c.ev("gmt_round_trips");
}
WORKLOAD(parse_malformed, 12000, 400000) {
    useZone(c);
    static const std::vector<Str> bad = {"", "Monday", "June 2009", "June 15", "12:30", "15 2009", "June 15, 2009 x", "June 15, 2009 1:2:3:4", "1/2/3/4", "June July 15 2009", "June 15, 2009 13:00 PM", "June 15, 2009 0:30 AM", "June 15, 2009 * 1:00",
        "June 15, 2009 2010", "June 15x 2009", "June 15, 2009 1:00 EST +0430", "June 15, 2009 1:00 +0100 +0200", "June 15, 2009 1:45:30 12 UTC", "15 June", "foo", "June 15, 2009 am", "June 15, 2009 1:00 westward", "1/June/2009x", "80x June 15", "GMT", "+5", "2009 2009", "June 15, 2009 1:00:00 30"};
    Str s = c.r.pick(bad);
    Str t = c.r.chance(50) ? cased(c.r, s) : s;
    if (c.r.chance(30)) t = Str((size_t) c.r.upto(3), ' ') + t + Str((size_t) c.r.upto(3), ' ');
    if (c.r.chance(10)) t = "(remark) " + t;
    OP("parse", t);
    Str msg = "unset";
    Str ex = thrown([&]() { try { Date::parse(J(t)); } catch (Java::Lang::InterruptedException &e) { msg = N(e.getMessage()); throw; } });
    c.eq(ex, Str("InterruptedException"), "Date.parse-accepts-malformed");
    c.eq(msg, Str(""), "Date.parse-message");
    c.eq(thrown([&]() { Date d(J(t)); }), Str("InterruptedException"), "Date.Date(String)-accepts-malformed");
    c.ev("malformed_texts");
}
// any bytes at all: an instant or an exception, without touching memory outside the text
WORKLOAD(parse_any, 30000, 1500000) {
    useZone(c);
    static const std::vector<Str> bits = {"Mon", "June", "15", "2009", "1:45", ":30", "PM", "AM", "GMT", "+", "-", "0430", "(", ")", "/", ",", " ", "x", "99999", "EST", "\xff", "70", "69", "a", "7/4/"};
    Str s;
    int n = c.r.upto(10);
    for (int i = 0; i < n; ++i) { if (c.r.chance(85)) s += c.r.pick(bits); else s += (char) c.r.u64(); if (c.r.chance(50)) s += ' '; }
    OP("parse", s);
    S in = J(s);
    ll a = 0, b = 0;
    Str ex = thrown([&]() { a = (ll) Date::parse(in); }), ex2 = thrown([&]() { b = (ll) Date::parse(in); });
    c.check(ex == "" || ex == "InterruptedException", "Date.parse-exception", "threw " + ex);
    c.eq(ex, ex2, "Date.parse-repeatable");
    c.eq(a, b, "Date.parse-repeatable");
    c.eq(N(in), s, "Date.parse-changes-input");
    c.ev(ex.empty() ? "any_accepted" : "any_refused");
}
// ---- SimpleDateFormat
struct Piece { Str pat, out; };
static Piece piece(Rng &r, const Zone &z, ll t) {
    F f = civil(t + offset(z, t));
    ll o = offset(z, t), h12 = f.h % 12 ? f.h % 12 : 12;
    switch (r.upto(19)) {
        case 0: return {"%Y", std::to_string(f.y)};
        case 1: return {"%m", pad(f.mo + 1, 2)};
        case 2: return {"%d", pad(f.d, 2)};
        case 3: return {"%H", pad(f.h, 2)};
        case 4: return {"%M", pad(f.mi, 2)};
        case 5: return {"%S", pad(f.s, 2)};
        case 6: return {"%T", hms(f)};
        case 7: return {"%a", DAY[f.wd]};
        case 8: return {"%B", MONTH[f.mo]};
        case 9: return {"%I %p", pad(h12, 2) + (f.h < 12 ? " AM" : " PM")};
        case 10: { ll a = o < 0 ? -o : o; return {"%z", (o < 0 ? "-" : "+") + pad(a / 3600, 2) + pad(a / 60 % 60, 2)}; }
        case 11: return {"%Z", saving(z, t) ? z.dst : z.std};
        case 12: return {"%j", pad(dayNumber(f.y, f.mo, f.d) - dayNumber(f.y, 0, 1) + 1, 3)};
        case 13: return {"%u", std::to_string(f.wd ? f.wd : 7)};
        case 14: return {"%%", "%"};
        case 15: return {"%b", MON[f.mo]};
        default: { Str s; int n = 1 + r.size(r.chance(8) ? 400 : 12); for (int i = 0; i < n; ++i) s += "abc -:/.T,\xc3\xa9"[r.upto(12)]; return {s, s}; }
    }
}
static Str trimmed(Str s) { while (!s.empty() && s.back() == ' ') s.pop_back(); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s; }
WORKLOAD(format, 20000, 600000) {
    const Zone &z = useZone(c);
    bool unset = c.r.chance(20);
    if (unset) { unsetenv("TZ"); tzset(); OP("unset TZ"); }
    static const Zone utc = ZONES[0];
    const Zone &here = unset ? utc : z;             // the sandbox has no /etc/localtime other than UTC; see below
    ll ms = instant(c.r, z), t = floordiv(ms, 1000);
    Date d((long) ms);
    Str before = N(d.toString());
    const Zone *fz = &ZONES[0];
    Str pat, want;
    int rounds = 1 + c.r.upto(3);
    bool literal = c.r.chance(50);
    auto build = [&](const Zone &q) { pat = want = ""; int n = c.r.upto(7); for (int i = 0; i < n; ++i) { Piece p = piece(c.r, q, t); pat += p.pat; want += p.out; } };
    for (int k = 0; k < rounds; ++k) {
        fz = &ZONES[c.r.upto(sizeof ZONES / sizeof *ZONES)];
        bool deflt = c.r.chance(20);
        if (deflt) fz = &ZONES[0];
        build(*fz);
        OP("format", pat, Str(fz->tz), (long) ms);
        SimpleDateFormat f = literal ? SimpleDateFormat(pat.c_str()) : SimpleDateFormat(J(pat));
        if (!deflt) {
            TimeZone a = TimeZone::getTimeZone(J(fz->tz));
            TimeZone other = TimeZone::getTimeZone("WST11");
            c.eq(N(a.getID()), Str(fz->tz), "TimeZone.getID");
            f.setTimeZone(a);
            a.setID("WST10");
            c.eq(N(other.getID()), Str("WST11"), "TimeZone.getID-of-another");
        } else c.ev("default_zone");
        Str got = N(f.format(d));
        c.eq(got, trimmed(want), "SimpleDateFormat.format");
        c.eq(N(f.format(d)), got, "SimpleDateFormat.format-again");
        if (want.size() >= 80) c.ev("long_texts");
        if (want.empty()) c.ev("empty_texts");
        const char *tz = getenv("TZ");
        c.eq(tz ? Str(tz) : Str("<unset>"), unset ? Str("<unset>") : Str(z.tz), "SimpleDateFormat.changes-process-zone");
        if (!unset) {                               // other Dates still read in the process zone
            look(c, here, d, ms, "after format");
            Date e((long) ms);
            look(c, here, e, ms, "created after format");
        }
        c.ev("formatted");
    }
    c.eq(N(d.toString()), before, "SimpleDateFormat.changes-date");
    setenv("TZ", "UTC", 1); tzset();
}
MON_MAIN
