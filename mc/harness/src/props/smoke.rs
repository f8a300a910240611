use crate::engine::Scen;
use crate::net::*;
use mcstd::{mc, rt::Config};
use std::str::FromStr;
use wruster::{http::*, router::*, Server};
pub fn scen(_tier: &str) -> Vec<Scen> {
    vec![Scen::sched("one", 2, Config::default(), || {
        let r = Router::new();
        let h: HttpHandler = Box::new(|_| Response::from_content(std::io::Cursor::new("hi"), 2, mime_text()));
        r.add("/", HttpMethod::GET, h);
        let mut s = Server::new();
        s.run(ADDR, r).unwrap();
        let mut c = Client::connect();
        c.send(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").unwrap();
        let x = c.resp();
        match x { Ok(r) => mc::outcome(format!("{} {}", r.status, r.text())), Err(e) => mc::fail(format!("{:?}", e)) }
        drop(c);
        s.shutdown().unwrap();
        if mc::open_fds() != 0 { mc::fail(format!("leak {}", mc::describe_fds())); }
    })]
}
fn mime_text() -> mime::Mime { mime::Mime::from_str("text/plain").unwrap() }
