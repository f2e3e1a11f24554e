#!/usr/bin/env python3
"""Writes the planted bugs to /verif/seeded: patch (made in a scratch copy of /repo), demonstration and description.
usage: seeds.py [ID...]"""
import os, sys, subprocess, shutil, json
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', '..', 'seeded')
S = '/tmp/seedmk'
COMMON = r'''
mod mock;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::commands::*;
use async_smtp::error::Error;
use async_smtp::extension::*;
use async_smtp::response::*;
use async_smtp::util::XText;
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};
use mock::*;
#[allow(unused_imports)]
use std::pin::Pin;
#[allow(unused_imports)]
use std::task::{Context, Poll};

#[allow(dead_code)]
fn addr(s: &str) -> EmailAddress {
    EmailAddress::new(s.to_string()).unwrap()
}
#[allow(dead_code)]
fn ehlo(features: &[&str]) -> String {
    let mut s = String::from("250-mx.example\r\n");
    for f in features {
        s += &format!("250-{f}\r\n");
    }
    s + "250 OK\r\n"
}
/// a well behaved server with these features
#[allow(dead_code)]
fn server(features: &'static [&'static str]) -> Mock {
    Mock::new("220 mx.example\r\n", move |l| {
        if l.starts_with("EHLO") {
            ehlo(features)
        } else if l == "DATA" {
            "354 go\r\n".into()
        } else if l == "QUIT" {
            "221 bye\r\n".into()
        } else {
            "250 OK\r\n".into()
        }
    })
}
#[allow(dead_code)]
fn connect(m: &Mock, c: SmtpClient) -> SmtpTransport<Mock> {
    run(SmtpTransport::new(c, m.clone())).expect("hangs").expect("connect")
}
#[allow(dead_code)]
fn mail(body: &[u8]) -> SendableEmail {
    SendableEmail::new(Envelope::new(Some(addr("a@x.org")), vec![addr("b@x.org")]).unwrap(), body.to_vec())
}
#[allow(dead_code)]
struct Rd(Vec<Result<Vec<u8>, std::io::ErrorKind>>, usize);
impl tokio::io::AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let i = self.1;
        if i >= self.0.len() {
            return Poll::Ready(Ok(()));
        }
        match self.0[i].clone() {
            Ok(v) => {
                let k = v.len().min(buf.remaining());
                buf.put_slice(&v[..k]);
                if k == v.len() { self.1 += 1 } else { self.0[i] = Ok(v[k..].to_vec()) }
                Poll::Ready(Ok(()))
            }
            Err(e) => {
                self.1 += 1;
                Poll::Ready(Err(std::io::Error::new(e, "source failed")))
            }
        }
    }
}
#[allow(unused)]
const _: () = { fn _u(_: Option<(Credentials, Mechanism, Error, XText<'static>, Response, ClientId, QuitCommand)>) {} };

'''
B = []


def bug(id, prop, needs, breaks, edits, main, **kw):
    B.append((id, prop, needs, breaks, edits, main, kw))


exec(open(os.path.join(HERE, 'seeds_list.py')).read())


def main():
    want = sys.argv[1:]
    if not os.path.isdir(S):
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
        subprocess.check_call(['git', 'clone', '-q', '/repo', S])
    subprocess.check_call(['git', '-C', S, 'fetch', '-q', 'origin'])
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    for id, prop, needs, breaks, edits, mainrs, kw in B:
        if want and id not in want:
            continue
        subprocess.check_call(['git', '-C', S, 'checkout', '-q', '-f', '--detach', head])
        for f, a, b in edits:
            p = os.path.join(S, f)
            s = open(p).read()
            n = s.count(a)
            if n != 1:
                print('%s: %d matches of %r in %s' % (id, n, a[:60], f))
                break
            open(p, 'w').write(s.replace(a, b))
        else:
            d = os.path.join(OUT, id)
            os.makedirs(d, exist_ok=True)
            diff = subprocess.check_output(['git', '-C', S, 'diff'], text=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'main.rs'), 'w').write(mainrs if kw.get('raw') else COMMON + mainrs)
            demo = open(os.path.join(HERE, 'demo.sh')).read()
            if kw.get('astd'):
                demo = demo.replace('async-smtp = { path = "$repo" }\ntokio = { version = "1", features = ["io-util"] }',
                                    'async-smtp = { path = "$repo", default-features = false, features = ["runtime-async-std"] }\nasync-std = "1"\nfutures = "0.3"')
            open(os.path.join(d, 'demo.sh'), 'w').write(demo)
            shutil.copy(os.path.join(HERE, 'mock.rs'), d) if not kw.get('astd') else open(os.path.join(d, 'mock.rs'), 'w').write('')
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            print(id, 'written')


main()
