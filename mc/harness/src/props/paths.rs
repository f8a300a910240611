//! C10 routing, C11 normalization.
use std::sync::Arc;
use super::gen::*;
use super::srv::*;
use super::util::*;
use super::{one_group, Prop, P0};
use crate::engine::Scen;
use crate::net::*;
use std::str::FromStr;
use wruster::http::{HttpMethod, Response, StatusCode};
use wruster::router::Router;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", level: "exploration", scen: c10, groups: one_group, rule: "every sequence of route registrations up to the bound over a path alphabet and methods (the order and repetitions vary), each started as a real server that is asked for every path x method x query of the domain; distinct by construction; non-trivial: at least one request matches a route", assumptions: &["routes ending in a slash against the same path without it are outside the domain", "façade network (conformance-checked)"], ..P0 },
        Prop { id: "C11", level: "exploration", scen: c11, groups: one_group, rule: "every target made of up to the bounded number of segments over {empty, ., .., names, dots}, absolute or not, sent to a real server; distinct by construction; non-trivial: the target has a segment to resolve or is refused", assumptions: &["percent-encoding is not decoded", "façade network (conformance-checked)"], ..P0 },
    ]
}
/// Reference: lexical normal form, None when the target must be refused.
pub fn ref_normalize(p: &str) -> Option<String> {
    if !p.starts_with('/') { return None; }
    let mut v: Vec<&str> = vec![];
    for s in p.split('/') {
        match s { "" | "." => {} ".." => { v.pop()?; } x => v.push(x) }
    }
    Some(format!("/{}", v.join("/")))
}
fn is_parent(route: &str, path: &str) -> bool {
    if route == path { return true; }
    let r = route.trim_end_matches('/');
    path.starts_with(r) && path[r.len()..].starts_with('/')
}
fn ask(c: &mut Client, m: &str, t: &str) -> Result<Resp, String> {
    c.send(format!("{} {} HTTP/1.1\r\n\r\n", m, t).as_bytes()).map_err(|e| e.to_string())?;
    c.resp().map_err(|e| format!("{} {}: {:?}", m, t, e))
}
fn c10(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    const R: [&str; 7] = ["/", "/a", "/a/b", "/ab", "/a/b/c", "/b", "/a/bc"];
    const M: [&str; 2] = ["GET", "POST"];
    const Q: [&str; 14] = ["/", "/a", "/a/b", "/ab", "/a/b/c", "/a/c", "/b/a", "/abc", "/a/bc/d", "/c", "/a/b/c/d", "/a/", "/a?x=/b", "/?a/b"];
    let check = |seq: &[(String, &str)], queries: &[&str], methods: &[&str]| -> Result<String, String> {
        let r = Router::new();
        let mut model: Vec<(String, String, String)> = vec![];
        for (k, (p, m)) in seq.iter().enumerate() {
            let id = format!("{}#{}", k, p);
            let i2 = id.clone();
            r.add(p, HttpMethod::from_str(m).unwrap(), h(move |q| {
                if q.method != HttpMethod::HEAD { return reply(&i2); }
                // a response without a body
                let mut r = Response::from_status(StatusCode::OK);
                r.headers.add(wruster::http::headers::Header { name: "X-Id".into(), value: i2.clone() });
                r
            }));
            model.retain(|x| !(x.0 == *p && x.1 == *m));
            model.push((p.clone(), m.to_string(), id));
        }
        let s = start(r);
        let mut c = Client::connect();
        let mut hits = 0;
        for q in queries { for m in methods {
            let path = ref_normalize(q.split('?').next().unwrap()).unwrap();
            let want = model.iter().filter(|x| x.1 == *m && is_parent(&x.0, &path)).max_by_key(|x| x.0.len());
            if *m == "HEAD" {
                // whatever follows the head belongs to it: a connection of its own
                let mut c = Client::connect();
                c.send(format!("HEAD {} HTTP/1.1\r\nConnection: close\r\n\r\n", q).as_bytes()).map_err(|e| e.to_string())?;
                let got = String::from_utf8_lossy(&c.drain().0).into_owned();
                let id = got.split("\r\n").find_map(|l| l.split_once(": ").filter(|x| x.0.eq_ignore_ascii_case("x-id")).map(|x| x.1.to_string()));
                let ok = match want { None => got.starts_with("HTTP/1.1 404 "), Some(w) => { hits += 1; got.starts_with("HTTP/1.1 200 ") && id.as_deref() == Some(w.2.as_str()) } };
                if !ok { return Err(format!("routes {:?}: {} {} -> {:?}, expected {:?}", seq, m, q, got, want)); }
                continue;
            }
            let r = ask(&mut c, m, q)?;
            let ok = match want { None => r.status == 404, Some(w) => { hits += 1; r.status == 200 && r.text() == w.2 } };
            if !ok { return Err(format!("routes {:?}: {} {} -> {} {:?}, expected {:?}", seq, m, q, r.status, r.text(), want)); }
        } }
        drop(c);
        finish(s);
        Ok(if hits > 0 { "matches".into() } else { "-no match".into() })
    };
    let n = (R.len() * M.len()) as u64;
    let k = if th { 4 } else { 3 };
    let mut total = 0;
    for j in 0..=k { total += n.pow(j); }
    let seqs = Scen::cases("registration sequences", total, 20, move |i| {
        let (mut i, mut l) = (i, 0u32);
        while i >= n.pow(l) { i -= n.pow(l); l += 1; }
        let mut d = Dig(i);
        let seq: Vec<(String, &str)> = (0..l).map(|_| { let p = *d.of(&R); (p.to_string(), *d.of(&M)) }).collect();
        check(&seq, &Q, &M)
    });
    // every pair of methods on nested routes
    let methods = Scen::cases("all methods", 9 * 9 * 3, 9, move |i| {
        let mut d = Dig(i);
        let (a, b) = (METHODS[d.n(9) as usize], METHODS[d.n(9) as usize]);
        let (p, q) = *d.of(&[("/a", "/a/b"), ("/a/b", "/a"), ("/a", "/a")]);
        check(&[(p.to_string(), a), (q.to_string(), b)], &["/a", "/a/b", "/a/b/c", "/"], &METHODS)
    });
    // longer segments, shared prefixes, bytes of every kind: the trie compares bytes
    let segs = ["a", "ab", "abc", "A", "a.b", "%41", "é", "a-b", "~", "1"];
    let wide = Scen::cases("pairs of segments", 10 * 10 * 10 * 10, 40, move |i| {
        let mut d = Dig(i);
        let (a, b, x, y) = (*d.of(&segs), *d.of(&segs), *d.of(&segs), *d.of(&segs));
        let seq = vec![(format!("/{}", a), "GET"), (format!("/{}/{}", b, x), "GET"), (format!("/{}/{}", b, y), "POST")];
        let qs = [format!("/{}", a), format!("/{}/{}", a, x), format!("/{}/{}", b, x), format!("/{}/{}/z", b, y), format!("/{}{}", a, b), format!("/{}/{}{}", b, x, y)];
        let qs: Vec<&str> = qs.iter().map(|s| s.as_str()).collect();
        check(&seq, &qs, &M)
    });
    // many routes, in two orders
    let many = Scen::cases("many routes", 40, 1, move |i| {
        let mut all: Vec<(String, &str)> = vec![];
        for a in ["a", "b", "ab", "ba"] { all.push((format!("/{}", a), "GET")); for b in ["a", "b", "ab"] { all.push((format!("/{}/{}", a, b), "GET")); all.push((format!("/{}/{}/x", a, b), "POST")); } }
        let r = (i as usize / 2) % all.len();
        all.rotate_left(r);
        if i % 2 == 1 { all.reverse(); }
        let mut qs = vec![];
        for a in ["a", "b", "ab", "ba", "c", "aba"] { qs.push(format!("/{}", a)); for b in ["a", "b", "ab", "abc", "x"] { qs.push(format!("/{}/{}", a, b)); qs.push(format!("/{}/{}/x", a, b)); qs.push(format!("/{}/{}/x/y", a, b)); } }
        let qs: Vec<&str> = qs.iter().map(|s| s.as_str()).collect();
        check(&all, &qs, &M)
    });
    // nested routes in every order: what is registered later must not disturb what is there
    let order = Scen::cases("nested routes in every order", 10 * 10 * 10 * 24 * 2, 40, move |i| {
        let mut d = Dig(i);
        let glued = d.n(2) == 1;
        let mut o = d.n(24);
        let (a, b, c) = (*d.of(&segs), *d.of(&segs), *d.of(&segs));
        let sep = if glued { "" } else { "/" };
        let mut all = vec!["/".to_string(), format!("/{}", a), format!("/{}{}{}", a, sep, b), format!("/{}{}{}{}{}", a, sep, b, sep, c)];
        let mut seq: Vec<(String, &str)> = vec![];
        for k in (1..=4).rev() { seq.push((all.remove((o % k) as usize), "GET")); o /= k; }
        let qs = ["/".to_string(), format!("/{}", a), format!("/{}/{}", a, b), format!("/{}{}", a, b), format!("/{}/{}/{}", a, b, c), format!("/{}{}{}", a, b, c), format!("/{}{}{}/z", a, b, c), format!("/{}/{}/{}/z", a, b, c)];
        check(&seq, &qs.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &["GET"])
    });
    // every character of one or two bytes
    let chars: Vec<char> = (0x21u32..0x7f).chain(0xa0..0x800).filter_map(char::from_u32).filter(|c| !"/?#".contains(*c)).collect();
    let nc = chars.len() as u64;
    let every = Scen::cases("every character in a route", nc * 4, 20, move |i| {
        let mut d = Dig(i);
        let c = chars[d.n(nc) as usize];
        if c == '.' { return Ok("-dots are for C11".into()); }
        let sh = d.n(4);
        let mut seq = vec![(format!("/{}", c), "GET"), (format!("/x{}/y", c), "GET"), ("/x".to_string(), "GET"), (format!("/x{}", c), "POST")];
        if sh & 1 == 1 { seq.reverse(); }
        if sh & 2 == 2 { seq.rotate_left(2); }
        let qs = [format!("/{}", c), format!("/{}/a", c), format!("/{}{}", c, c), format!("/x{}/y", c), format!("/x{}", c), format!("/x/{}", c), "/x".to_string()];
        check(&seq, &qs.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &M)
    });
    // whatever the query is made of
    const QT: [&str; 9] = ["?", "/", "..", "a", "=", "&", ".", "#", "%3f"];
    let kq = if th { 6u32 } else { 5 };
    let queries = Scen::cases("whatever the query is made of", 9u64.pow(kq) * 5 / 45, 1, move |i| {
        let seq: Vec<(String, &str)> = ["/", "/a", "/a/b", "/b"].iter().map(|p| (p.to_string(), "GET")).collect();
        let qs: Vec<String> = (0..45u64).map(|j| {
            let mut d = Dig(i * 45 + j);
            let path = *d.of(&["/", "/a", "/a/b", "/b/c", "/ab"]);
            let q: String = (0..kq).map(|_| *d.of(&QT)).collect();
            format!("{}?{}", path, q)
        }).collect();
        check(&seq, &qs.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &["GET"])
    });
    // deep below a route, and deep routes
    let depths: Vec<usize> = (1..if th { 600 } else { 140 }).chain([255, 256, 257, 300, 511, 512, 513, 1000, 1025, 3000]).collect();
    let nd = depths.len() as u64;
    let deep = Scen::cases("deep paths", nd * 3, 4, move |i| {
        let mut d = Dig(i);
        let n = depths[d.n(nd) as usize];
        let seg = *d.of(&["/a", "/ab", "/long-name"]);
        let p = |k: usize| seg.repeat(k);
        // a path can be as long as it likes, a route is something a person wrote
        let deepest = n;
        let n = n.min(2500 / seg.len());
        let half = (n / 2).max(1);
        let mut seq = vec![("/".to_string(), "GET"), (p(1), "GET"), (p(n), "GET")];
        if half > 1 && half < n { seq.push((p(half), "GET")); }
        if n > 1 { seq.push((p(n - 1), "POST")); }
        let qs = [p(n), format!("{}x", p(n)), format!("{}/x", p(n)), p(n + 1), p(2 * n), format!("{}/x/y", p(n - 1)), format!("{}{}", p(half), "/q".repeat(n)), format!("/z{}", p(n)), format!("{}/", p(n)), format!("{}?x=/../..", p(n)), p(deepest), p(deepest * 4)];
        check(&seq, &qs.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &M)
    });
    // segments of every length
    let ns = Arc::new(super::gen::lengths(if th { 700 } else { 260 }, if th { 13 } else { 12 }));
    let nl = ns.len() as u64;
    let long = Scen::cases("long segments", nl * 3, 4, move |i| {
        let mut d = Dig(i);
        let n = ns[d.n(nl) as usize];
        let tail = *d.of(&["", "é", "%c3%a9"]);
        let seg = |n: usize| -> String { (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).chain(tail.chars()).collect() };
        let x = seg(n + 1);
        let seq = vec![(format!("/{}", x), "GET"), (format!("/k/{}/m", x), "GET"), ("/k".to_string(), "POST"), (format!("/{}", seg(n / 2 + 1)), "POST")];
        let qs = [format!("/{}", x), format!("/{}/y", x), format!("/{}y", x), format!("/{}", seg(n + 2)), format!("/{}", &seg(n)), format!("/k/{}/m", x), format!("/k/{}/m/z", x), format!("/k/{}", x), format!("/k/{}/n", x), format!("/{}/{}", x, x), format!("/{}?{}", x, x), format!("/q/{}", x)];
        check(&seq, &qs.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &M)
    });
    vec![seqs, methods, wide, many, order, every, queries, deep, long]
}
fn c11(tier: &str, _: &str) -> Vec<Scen> {
    let th = tier == "thorough";
    const S: [&str; 7] = ["", ".", "..", "a", "b.c", "...", "%2e%2e"];
    let k = if th { 7 } else { 6 };
    let mut total = 0u64;
    for l in 0..=k { total += 7u64.pow(l); }
    let chunk = 60u64;
    let blocks = total.div_ceil(chunk);
    // asks one server for all the targets; how many were refused
    let ask_all = move |targets: &[String]| -> Result<u32, String> {
        let rec = Rec::default();
        let s = start(echo_routes(&rec));
        let mut c = Client::connect();
        let mut refused = 0;
        for t in targets {
            let l = t.split('/').count();
            for q in if l <= 4 { &["", "?q=/../x", "?", "?a?b/..", "?/x?", "??"][..] } else { &[""][..] } {
                let want = ref_normalize(t);
                let full = format!("{}{}", t, q);
                let before = rec.len();
                let r = ask(&mut c, "GET", &full)?;
                let calls = rec.get()[before..].to_vec();
                match want {
                    Some(n) => { let w = format!("GET {}{}", n, q); if r.status != 200 || calls != [w.clone()] { return Err(format!("target {:?}: status {}, handler saw {:?}, expected {:?}", full, r.status, calls, w)); } }
                    None => { refused += 1; if r.status < 400 || !calls.is_empty() { return Err(format!("target {:?}: status {}, handler saw {:?}, must be refused", full, r.status, calls)); } }
                }
            }
        }
        drop(c);
        finish(s);
        Ok(refused)
    };
    let verdict = |refused: u32| if refused > 0 { "block with refused targets".to_string() } else { "block".into() };
    let go = move |absolute: bool, blk: u64| -> Result<String, String> {
        let ts: Vec<String> = (blk * chunk..((blk + 1) * chunk).min(total)).map(|i| {
            let (mut i, mut l) = (i, 0u32);
            while i >= 7u64.pow(l) { i -= 7u64.pow(l); l += 1; }
            let mut d = Dig(i);
            let segs: Vec<&str> = (0..l).map(|_| *d.of(&S)).collect();
            if absolute { format!("/{}", segs.join("/")) } else { segs.join("/") }
        }).filter(|t| !t.is_empty()).collect();
        ask_all(&ts).map(verdict)
    };
    const ODD: [&str; 21] = ["", ".", "..", "...", "....", ".a", "a.", "..a", "a..", "%2e", ".%2e", "%2F..", "é", "..é", "~", "a:b", "*", "\\..", "..;", ". .", "C:"];
    let k2 = if th { 4u32 } else { 3 };
    let ns = Arc::new(super::gen::lengths(if th { 700 } else { 260 }, if th { 18 } else { 15 }));
    let nl = ns.len() as u64;
    let chars: Arc<Vec<char>> = Arc::new((0x21u32..0x7f).chain(0xa0..if th { 0x3000 } else { 0x300 }).chain([0x2024, 0x2025, 0x2026, 0x2044, 0x2215, 0x3002, 0xff0e, 0xff0f, 0xfeff, 0x1f600]).filter_map(char::from_u32).filter(|c| !"/?#".contains(*c)).collect());
    let nc = chars.len() as u64;
    vec![
        // segments of every length, with characters of every width at their end
        Scen::cases("long segments", nl * 5, 4, move |i| {
            let mut d = Dig(i);
            let n = ns[d.n(nl) as usize];
            let tail = *d.of(&["", "é", "€", "😀", "%2e%2e"]);
            let x: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).chain(tail.chars()).collect();
            let ts: Vec<String> = ["/@", "/@z", "/@/..", "/@/../x", "/@/../..", "/a/@/b", "/../@", "/./@/.", "//@//", "/a/../@", "/..@", "/@..", "/.@/.."].iter().map(|t| t.replace("@", &x)).collect();
            ask_all(&ts).map(verdict)
        }),
        Scen::cases("every character next to dots", nc, 8, move |i| {
            let c = chars[i as usize].to_string();
            let ts: Vec<String> = ["/@", "/@@", "/.@", "/..@", "/@.", "/@..", "/.@.", "/..@..", "/@/..", "/@/../..", "/a/@/../..", "/a/..@/b", "/a/@../b", "/../@", "/@/./@", "/%@e%@e/x"].iter().map(|t| t.replace('@', &c)).collect();
            ask_all(&ts).map(verdict)
        }),
        Scen::cases("segments that look like dots", 21u64.pow(k2) / 21, 10, move |i| {
            let ts: Vec<String> = (0..21u64).map(|j| { let mut d = Dig(i * 21 + j); format!("/{}", (0..k2).map(|_| *d.of(&ODD)).collect::<Vec<_>>().join("/")) }).filter(|t| !t.contains(' ')).collect();
            ask_all(&ts).map(verdict)
        }),
        // deep targets, climbing up to the root and beyond
        Scen::cases("deep targets", if th { 600 } else { 150 }, 4, move |i| {
            let n = i as usize + 1;
            let mut ts = vec![];
            for up in ["..", "../.", ".//.."] { for m in [n - 1, n, n + 1, n / 2] { for tail in ["", "/", "/x"] {
                ts.push(format!("{}{}{}", "/a".repeat(n), format!("/{}", up).repeat(m), tail));
                ts.push(format!("{}{}", format!("/b/{}", up).repeat(m), tail));
                ts.push(format!("{}{}{}", "/".repeat(n), "./".repeat(m), tail));
            } } }
            ts.retain(|t| !t.is_empty());
            ask_all(&ts).map(verdict)
        }),
        Scen::cases("absolute targets, in blocks of 60", blocks, 1, move |i| go(true, i)),
        Scen::cases("other targets, in blocks of 60", blocks.min(if th { 10_000 } else { 400 }), 1, move |i| go(false, i)),
        Scen::cases("odd targets", 12, 12, |i| {
            let t = ["*", "http://h/a", "a", "..", ".", "?", "?/a", "a/b", "~", "\\", "C:\\a", "a/../.."][i as usize];
            let rec = Rec::default();
            let s = start(echo_routes(&rec));
            let mut c = Client::connect();
            let r = ask(&mut c, "GET", t)?;
            if r.status < 400 || rec.len() > 0 { return Err(format!("target {:?}: status {}, handler saw {:?}", t, r.status, rec.get())); }
            drop(c);
            finish(s);
            Ok("refused".into())
        }),
    ]
}
