// K03: URLs and URL connections keep what they were given.
#include "lib.hpp"
#include "library/Java/Net/URL/URL.hpp"
#include "library/Java/Net/HttpURLConnection/HttpURLConnection.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
using mon::Ctx;
using mon::Rng;
namespace L = Java::Lang;
using Java::Net::URL;
using Java::Net::URLConnection;
using Java::Net::HttpURLConnection;
static Str bytes(Rng &r, int max) {
    Str s;
    for (int i = r.size(max); i-- > 0;) s += (char) r.upto(256);
    return s;
}
struct Plain : public URLConnection {
    int connects = 0;
    Plain() {}
    explicit Plain(const URL &u) : URLConnection(u) {}
    void connect() override { ++connects; connected = true; }
};
struct Http : public HttpURLConnection {
    int connects = 0, disconnects = 0;
    explicit Http(const URL &u) : HttpURLConnection(u) {}
    void connect() override { ++connects; connected = true; }
    void disconnect() override { ++disconnects; connected = false; }
    void answer(int code, const Str &text) { responseCode = code; responseMessage = J(text); }
};
struct Model {
    bool in = true, out = false, caches = true, user = false;
    long since = 0;
    int read = 0, connect = 0, code = -1;
    Str method = "GET", message;
};
static void emptyUrl(Ctx &c, URL u, const char *what) {
    Str w = what;
    c.eq(N(u.getProtocol()), Str(""), w + ".protocol");
    c.eq(N(u.getHost()), Str(""), w + ".host");
    c.eq(u.getPort(), -1, w + ".port");
    c.eq(N(u.getPath()), Str(""), w + ".path");
    c.eq(N(u.getQuery()), Str(""), w + ".query");
    c.eq(N(u.toString()), Str("://"), w + ".toString");
}
static void same(Ctx &c, URLConnection &u, const Model &m) {
    c.eq((bool) u.getDoInput(), m.in, "URLConnection.doInput");
    c.eq((bool) u.getDoOutput(), m.out, "URLConnection.doOutput");
    c.eq((bool) u.getUseCaches(), m.caches, "URLConnection.useCaches");
    c.eq((bool) u.getAllowUserInteraction(), m.user, "URLConnection.allowUserInteraction");
    c.eq(u.getIfModifiedSince(), m.since, "URLConnection.ifModifiedSince");
    c.eq(u.getReadTimeout(), m.read, "URLConnection.readTimeout");
    c.eq(u.getConnectTimeout(), m.connect, "URLConnection.connectTimeout");
    c.eq(N(u.toString()), N(u.getURL().toString()), "URLConnection.toString");
    emptyUrl(c, u.getURL(), "URLConnection.url");
}
static void sameHttp(Ctx &c, Http &h, const Model &m) {
    same(c, h, m);
    c.eq(N(h.getMethod()), m.method, "HttpURLConnection.method");
    c.eq(h.getResponseCode(), m.code, "HttpURLConnection.responseCode");
    c.eq(N(h.getResponseMessage()), m.message, "HttpURLConnection.responseMessage");
}
static void change(Ctx &c, Rng &r, URLConnection &u, Model &m) {
    switch (r.upto(7)) {
        case 0: { bool v = r.chance(50); OP("setDoInput", v); u.setDoInput(v); m.in = v; break; }
        case 1: { bool v = r.chance(50); OP("setDoOutput", v); u.setDoOutput(v); m.out = v; break; }
        case 2: { bool v = r.chance(50); OP("setUseCaches", v); u.setUseCaches(v); m.caches = v; break; }
        case 3: { bool v = r.chance(50); OP("setAllowUserInteraction", v); u.setAllowUserInteraction(v); m.user = v; break; }
        case 4: { long v = r.i64(); OP("setIfModifiedSince", v); u.setIfModifiedSince(v); m.since = v; break; }
        case 5: { int v = r.i32(); OP("setReadTimeout", v); u.setReadTimeout(v); m.read = v; break; }
        case 6: { int v = r.i32(); OP("setConnectTimeout", v); u.setConnectTimeout(v); m.connect = v; break; }
    }
    c.ev("settings_changed");
}
// memory that held other things before: a member nobody initialised shows
template<class T> struct Dirty {
    void *at;
    T *t;
    template<class... A> explicit Dirty(Rng &r, const A &... a) : at(malloc(sizeof(T))) { memset(at, 1 + r.upto(255), sizeof(T)); t = new(at) T(a...); }
    ~Dirty() { t->~T(); free(at); }
};
WORKLOAD(connections, 6000, 200000) {
    Rng &r = c.r;
    URL none;
    emptyUrl(c, none, "URL");
    {
        Dirty<URL> u(r);
        emptyUrl(c, *u.t, "URL");
        Dirty<URL> copy(r, *u.t);
        emptyUrl(c, *copy.t, "URL-copy");
        *u.t = *copy.t;
        emptyUrl(c, *u.t, "URL-assigned");
    }
    Dirty<Plain> p(r), q(r, none);
    Dirty<Http> h(r, none), g(r, none);
    Model mp, mq, mh, mg;
    OP("connections");
    same(c, *p.t, mp); same(c, *q.t, mq); sameHttp(c, *h.t, mh); sameHttp(c, *g.t, mg);
    c.ev("fresh_connections", 4);
    int connects = 0, disconnects = 0;
    for (int i = 5 + r.size(30); i-- > 0;) {
        switch (r.upto(8)) {
            case 0: change(c, r, *p.t, mp); break;
            case 1: change(c, r, *q.t, mq); break;
            case 2: case 3: change(c, r, *h.t, mh); break;
            case 4: change(c, r, *g.t, mg); break;
            case 5: { Str m = bytes(r, 30); OP("setMethod", m); h.t->setMethod(J(m)); mh.method = m; c.ev("methods_set"); break; }
            case 6: { Str m = bytes(r, 60); int k = r.i32(); OP("answer", k, m); h.t->answer(k, m); mh.code = k; mh.message = m; c.ev("answers"); break; }
            case 7: {
                OP("connect");
                URLConnection *base = h.t;
                base->connect(); ++connects;
                HttpURLConnection *mid = h.t;
                if (r.chance(50)) { mid->disconnect(); ++disconnects; }
                c.eq(h.t->connects, connects, "URLConnection.connect-dispatch");
                c.eq(h.t->disconnects, disconnects, "URLConnection.disconnect-dispatch");
                break;
            }
        }
        if (r.chance(10)) {           // a copy is independent
            Http copy = *h.t;
            Model mc = mh;
            sameHttp(c, copy, mc);
            change(c, r, copy, mc);
            copy.setMethod(J("X"));
            mc.method = "X";
            sameHttp(c, copy, mc);
            if (r.chance(50)) { *g.t = copy; mg = mc; c.ev("assigned_connections"); }
            c.ev("copied_connections");
        }
        same(c, *p.t, mp); same(c, *q.t, mq); sameHttp(c, *h.t, mh); sameHttp(c, *g.t, mg);
    }
}
PROBE(url_is_not_parsed) {
    URL u(J("http://test.com:3000/file/test?param=1"));
    return N(u.getProtocol()) == "http" && N(u.getHost()) == "test.com" && u.getPort() == 3000 && N(u.getPath()) == "/file/test" && N(u.getQuery()) == "param=1";
}
struct Codes : public HttpURLConnection {
    using HttpURLConnection::HttpURLConnection;
    static void check(Ctx &c) {
#define CODE(NAME, N) { volatile int v = HTTP_##NAME; c.eq((int) v, N, "HTTP_" #NAME); }
        CODE(OK, 200)
        CODE(CREATED, 201)
        CODE(ACCEPTED, 202)
        CODE(NOT_AUTHORITATIVE, 203)
        CODE(NO_CONTENT, 204)
        CODE(RESET, 205)
        CODE(PARTIAL, 206)
        CODE(MULT_CHOICE, 300)
        CODE(MOVED_PERM, 301)
        CODE(MOVED_TEMP, 302)
        CODE(SEE_OTHER, 303)
        CODE(NOT_MODIFIED, 304)
        CODE(USE_PROXY, 305)
        CODE(BAD_REQUEST, 400)
        CODE(UNAUTHORIZED, 401)
        CODE(PAYMENT_REQUIRED, 402)
        CODE(FORBIDDEN, 403)
        CODE(NOT_FOUND, 404)
        CODE(BAD_METHOD, 405)
        CODE(NOT_ACCEPTABLE, 406)
        CODE(PROXY_AUTH, 407)
        CODE(CLIENT_TIMEOUT, 408)
        CODE(CONFLICT, 409)
        CODE(GONE, 410)
        CODE(LENGTH_REQUIRED, 411)
        CODE(PRECON_FAILED, 412)
        CODE(ENTITY_TOO_LARGE, 413)
        CODE(REQ_TOO_LONG, 414)
        CODE(UNSUPPORTED_TYPE, 415)
        CODE(INTERNAL_ERROR, 500)
        CODE(NOT_IMPLEMENTED, 501)
        CODE(BAD_GATEWAY, 502)
        CODE(UNAVAILABLE, 503)
        CODE(GATEWAY_TIMEOUT, 504)
        CODE(VERSION, 505)
        c.ev("status_codes", 35);
    }
};
WORKLOAD(status_codes, 4, 4) { OP("status codes"); Codes::check(c); }
MON_MAIN
