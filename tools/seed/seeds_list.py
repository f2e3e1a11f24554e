bug('c01-blank-line-dot', 'C01', 'a message with an empty line directly followed by a line starting with a dot',
    'after a blank line the codec forgets that it is at the start of a line, so a leading dot is not doubled: the server drops it, or takes a lone dot for the end of the message and the rest for commands',
    [('src/codec.rs', """                            } else if *byte == b'\\r' {
                                1
                            } else {
                                0
                            }
                        }
                        _""", """                            } else {
                                0
                            }
                        }
                        _""")],
    r'''
fn main() {
    let m = server(&[]);
    let mut t = connect(&m, SmtpClient::new());
    let body = b"Subject: x\r\n\r\n.\r\nQUIT\r\n".to_vec();
    run(t.send(mail(&body))).expect("hangs").expect("send");
    let mails = m.mails();
    assert_eq!(mails.len(), 1);
    let mut want = body.clone();
    want.extend_from_slice(b"\r\n");
    assert_eq!(unstuff(&mails[0]), want);
    assert!(!m.lines().iter().any(|l| l == "QUIT"));
}
''')

bug('c01-chunked-source', 'C01', 'a message longer than the copy buffer whose content has a dot in the middle of a line at a buffer boundary, or a line start dot there',
    'the message is encoded in chunks with a fresh codec for each chunk, so every chunk is treated as the start of a line and a dot in the middle of a line is doubled',
    [('src/stream.rs', """        let mut codec = ClientCodec::new();

        let mut message_reader = BufReader::new(message);

        let mut message_bytes = Vec::new();
        message_reader.read_to_end(&mut message_bytes).await?;

        let res: Result<(), Error> = async {
            if !message_bytes.is_empty() {
                codec.encode(&message_bytes, &mut self.inner).await?;
            }
""", """        let mut message_reader = BufReader::new(message);

        let mut message_bytes = Vec::new();
        message_reader.read_to_end(&mut message_bytes).await?;

        let res: Result<(), Error> = async {
            // Encode in pieces, so that a large message does not need a second copy.
            for chunk in message_bytes.chunks(64 * 1024) {
                let mut codec = ClientCodec::new();
                codec.encode(chunk, &mut self.inner).await?;
            }
""")],
    r'''
fn main() {
    let m = server(&[]);
    let mut t = connect(&m, SmtpClient::new());
    for at in [64 * 1024usize, 1024, 4096, 8192, 16384, 32768] {
        let mut body = vec![b'x'; at];
        body.extend_from_slice(b".tail\r\n");
        run(t.send(mail(&body))).expect("hangs").expect("send");
        let wire = m.mails().pop().unwrap();
        let mut want = body.clone();
        want.extend_from_slice(b"\r\n");
        assert!(unstuff(&wire) == want, "content altered at {at}");
    }
}
''')

bug('c02-source-eof-error', 'C02', 'a message source that fails half-way with an UnexpectedEof error',
    'a source that breaks off is taken for a complete message: the truncated message is committed with the end-of-data marker',
    [('src/stream.rs', "        message_reader.read_to_end(&mut message_bytes).await?;\n",
      """        match message_reader.read_to_end(&mut message_bytes).await {
            Ok(_) => {}
            // The source ended.
            Err(err) if err.kind() == std::io::ErrorKind::UnexpectedEof => {}
            Err(err) => return Err(err.into()),
        }
""")],
    r'''
fn main() {
    for kind in [std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe] {
        let m = server(&["PIPELINING"]);
        let mut t = connect(&m, SmtpClient::new());
        let e = SendableEmail::new_with_reader(
            Envelope::new(None, vec![addr("b@x.org")]).unwrap(),
            Box::new(Rd(vec![Ok(b"Subject: x\r\n\r\nhalf".to_vec()), Err(kind)], 0)),
        );
        let r = run(t.send(e)).expect("hangs");
        assert!(r.is_err(), "a truncated message was sent successfully");
        assert!(m.mails().is_empty(), "a truncated message was committed");
    }
}
''')

bug('c03-partial-recipients', 'C03', 'a server without PIPELINING that rejects one of several recipients temporarily',
    'without pipelining a temporarily rejected recipient does not stop the transaction: the message is sent to the others and the caller is told success',
    [('src/smtp_client.rs', """                self.stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
""", """                match self
                    .stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await
                {
                    Ok(_) => {}
                    // Greylisted: the others may get the message already.
                    Err(Error::Transient(_)) if email.envelope().to().len() > 1 => continue,
                    Err(err) => return Err(err),
                }
""")],
    r'''
fn main() {
    let m = Mock::new("220 mx\r\n", |l| {
        if l.starts_with("EHLO") { ehlo(&[]) }
        else if l == "DATA" { "354 go\r\n".into() }
        else if l.contains("grey@") { "450 later\r\n".into() }
        else { "250 OK\r\n".into() }
    });
    let mut t = connect(&m, SmtpClient::new());
    let env = Envelope::new(Some(addr("a@x.org")), vec![addr("b@x.org"), addr("grey@x.org"), addr("c@x.org")]).unwrap();
    let r = run(t.send(SendableEmail::new(env, "hello"))).expect("hangs");
    assert!(m.mails().is_empty(), "content was sent although a recipient was rejected");
    assert!(matches!(r, Err(Error::Transient(_))), "{r:?}");
}
''')

bug('c04-dedup-recipients', 'C04', 'an envelope whose recipient list contains the same address twice in a row, pipelining on',
    'with pipelining a recipient equal to the preceding one gets no RCPT command',
    [('src/smtp_client.rs', """            for to_address in email.envelope().to() {
                self.stream
                    .send_command(""", """            let mut previous = None;
            for to_address in email.envelope().to() {
                if previous.replace(to_address) == Some(to_address) {
                    continue;
                }
                self.stream
                    .send_command(""")],
    r'''
fn main() {
    let m = server(&["PIPELINING"]);
    let mut t = connect(&m, SmtpClient::new());
    let to = ["b@x.org", "b@x.org", "c@x.org", "b@x.org"];
    let env = Envelope::new(Some(addr("a@x.org")), to.iter().map(|a| addr(a)).collect()).unwrap();
    run(t.send(SendableEmail::new(env, "hello"))).expect("hangs").expect("send");
    let got: Vec<String> = m.lines().into_iter().filter(|l| l.starts_with("RCPT")).collect();
    let want: Vec<String> = to.iter().map(|a| format!("RCPT TO:<{a}>")).collect();
    assert_eq!(got, want);
}
''')

bug('c05-rset-unread', 'C05', 'a rejected recipient without pipelining, followed by another operation on the same transport',
    'after a rejected recipient RSET is written but its reply is never read, so the next operation takes it for its own reply',
    [('src/smtp_client.rs', """                self.stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await?;
""", """                if let Err(err) = self
                    .stream
                    .command(RcptCommand::new(to_address.clone(), vec![]))
                    .await
                {
                    // Abort the transaction.
                    self.stream.send_command(RsetCommand).await?;
                    return Err(err);
                }
""")],
    r'''
fn main() {
    let m = Mock::new("220 mx\r\n", |l| {
        if l.starts_with("EHLO") { ehlo(&[]) }
        else if l == "DATA" { "354 go\r\n".into() }
        else if l.contains("bad@") { "550 no\r\n".into() }
        else if l == "QUIT" { "221 bye\r\n".into() }
        else { "250 OK\r\n".into() }
    });
    let mut t = connect(&m, SmtpClient::new());
    let env = Envelope::new(Some(addr("a@x.org")), vec![addr("bad@x.org")]).unwrap();
    let r = run(t.send(SendableEmail::new(env, "hello"))).expect("hangs");
    assert!(matches!(r, Err(Error::Permanent(_))), "{r:?}");
    assert_eq!(m.unread(), "", "a reply was left unread");
    run(t.quit()).expect("hangs").expect("quit");
    assert_eq!(m.unread(), "");
}
''')

bug('c06-forced-pipelining', 'C06', 'pipelining disabled in the client, server offering it, and an envelope with more than 50 recipients',
    'large envelopes are pipelined even though the client configuration disables pipelining',
    [('src/smtp_client.rs', "            self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;\n",
      """            self.supports_feature(Extension::Pipelining)
                && (self.client_info.pipelining || email.envelope().to().len() > 50);
""")],
    r'''
fn main() {
    for n in [1usize, 2, 20, 60, 300] {
        let m = server(&["PIPELINING"]);
        let mut t = connect(&m, SmtpClient::new().pipelining(false));
        let env = Envelope::new(None, (0..n).map(|i| addr(&format!("u{i}@x.org"))).collect()).unwrap();
        run(t.send(SendableEmail::new(env, "hello"))).expect("hangs").expect("send");
        let log = m.with(|i| i.log.clone());
        let mut owed = 0i32;
        for e in log.iter().skip(1) {
            match e {
                Ev::Write(w) if w.starts_with(b"MAIL") || w.starts_with(b"RCPT") || w == b"DATA\r\n" => {
                    assert!(owed == 0, "pipelined although disabled ({n} recipients)");
                    owed += 1;
                }
                Ev::Read(k) if *k > 0 => owed = 0,
                _ => {}
            }
        }
    }
}
''')

bug('c07-flush-in-command', 'C07', 'a stream that buffers writes, and a server that offers PIPELINING',
    'flushing moved from write() to command(): a pipelined group is never flushed before the client waits for its replies',
    [('src/stream.rs', """        self.send_command(command).await?;
        self.read_response().await
    }

    /// Sends the given""", """        self.send_command(command).await?;
        self.inner.flush().await?;
        self.read_response().await
    }

    /// Sends the given"""),
     ('src/stream.rs', """        self.inner.write_all(string).await?;
        self.inner.flush().await?;

        debug!(""", """        self.inner.write_all(string).await?;

        debug!(""")],
    r'''
fn main() {
    for f in [&[][..], &["PIPELINING"][..]] {
        let m = server(f);
        let mut t = connect(&m, SmtpClient::new());
        let r = run(t.send(mail(b"hello"))).expect("hangs");
        assert!(r.is_ok(), "the server never saw the commands: {r:?}");
        run(t.quit()).expect("hangs").expect("quit");
    }
}
''')

bug('c08-lost-flush-error', 'C08', 'the flush after the end-of-data marker fails',
    'an error of the final flush of a message is dropped; the client goes on as if the message had been transmitted',
    [('src/stream.rs', """            self.inner.write_all(b"\\r\\n.\\r\\n").await?;
            self.inner.flush().await?;
""", """            self.inner.write_all(b"\\r\\n.\\r\\n").await?;
            self.inner.flush().await.ok();
""")],
    r'''
fn main() {
    // a stream that reports an error on flush although the data had already gone out
    for n in 0..12 {
        let m = server(&[]);
        let mut t = connect(&m, SmtpClient::new());
        m.with(|i| {
            i.fail_flush = Some(i.flushes + n);
        });
        let before = m.with(|i| i.flushes);
        // the replies are there already
        m.with(|i| i.input.extend_from_slice(b"250 OK\r\n250 OK\r\n354 go\r\n250 OK\r\n"));
        let r = run(t.send(mail(b"hello"))).expect("hangs");
        let failed = m.with(|i| i.flushes) > before + n;
        assert!(!(failed && r.is_ok()), "flush {n} failed and send succeeded");
    }
}
''')

bug('c09-greeting-ignored', 'C09', 'a server that greets with a temporary failure (421/450) and still answers EHLO',
    'a temporarily negative greeting is ignored and EHLO is sent regardless',
    [('src/smtp_client.rs', "            let _greeting = stream.read_response().await?;\n",
      """            match stream.read_response().await {
                // Some servers are slow to start up.
                Ok(_) | Err(Error::Transient(_)) => {}
                Err(err) => return Err(err),
            }
""")],
    r'''
fn main() {
    for g in ["421 closing\r\n", "450-not\r\n450 now\r\n", "554 no\r\n"] {
        let m = Mock::new(g, |_| ehlo(&["PIPELINING"]));
        let r = run(SmtpTransport::new(SmtpClient::new(), m.clone())).expect("hangs");
        assert!(r.is_err(), "connected in spite of {g}");
        assert!(m.lines().is_empty(), "EHLO sent in spite of {g}");
    }
}
''')

bug('c10-smtputf8-ascii', 'C10', 'SMTPUTF8 enabled by the client and advertised by the server',
    'SMTPUTF8 is only requested when an envelope address is not ASCII, which never happens, so messages with UTF-8 headers are sent without it',
    [('src/smtp_client.rs', "        if self.supports_feature(Extension::SmtpUtfEight) && self.client_info.smtp_utf8 {\n",
      """        let needs_utf8 = email.envelope().to().iter().any(|to| to.to_string().chars().any(|c| c > '~'))
            || email.envelope().from().is_none();
        if self.supports_feature(Extension::SmtpUtfEight) && self.client_info.smtp_utf8 && needs_utf8 {
""")],
    r'''
fn main() {
    for from in [None, Some(addr("a@x.org"))] {
        let m = server(&["SMTPUTF8", "8BITMIME"]);
        let mut t = connect(&m, SmtpClient::new().smtp_utf8(true));
        let env = Envelope::new(from, vec![addr("b@x.org")]).unwrap();
        run(t.send(SendableEmail::new(env, "Subject: \u{e9}\r\n\r\nhi"))).expect("hangs").expect("send");
        let l = m.lines().into_iter().find(|l| l.starts_with("MAIL")).unwrap();
        assert!(l.ends_with(" SMTPUTF8") || l.contains(" SMTPUTF8 "), "{l}");
        assert!(l.contains(" BODY=8BITMIME"), "{l}");
    }
}
''')

bug('c11-starttls-transient', 'C11', 'a server that answers STARTTLS with a temporary failure (454)',
    'the plaintext stream is handed out for the TLS upgrade although the server refused STARTTLS temporarily',
    [('src/smtp_client.rs', "        self.stream.command(StarttlsCommand).await?;\n",
      """        match self.stream.command(StarttlsCommand).await {
            Err(Error::Transient(response)) if !response.has_code(454) => {
                return Err(Error::Transient(response))
            }
            Ok(_) | Err(Error::Transient(_)) => {}
            Err(err) => return Err(err),
        }
""")],
    r'''
fn main() {
    for (reply, good) in [("220 go\r\n", true), ("454 not now\r\n", false), ("421 bye\r\n", false), ("501 no\r\n", false)] {
        let m = Mock::new("220 mx\r\n", move |l| if l.starts_with("EHLO") { ehlo(&["STARTTLS"]) } else { reply.into() });
        let t = connect(&m, SmtpClient::new());
        let r = run(t.starttls()).expect("hangs");
        assert_eq!(r.is_ok(), good, "after {reply}");
    }
}
''')

bug('c12-try-next-mechanism', 'C12', 'a server offering two accepted mechanisms that rejects the credentials',
    'when authentication is rejected the next mechanism is tried, and try_login reports success when all were rejected',
    [('src/smtp_client.rs', """        if let Some(mechanism) = accepted_mechanisms
            .iter()
            .find(|mechanism| self.server_info.supports_auth_mechanism(**mechanism))
        {
            self.auth(*mechanism, credentials).await?;
        } else {
            info!("No supported authentication mechanisms available");
        }

        Ok(())
""", """        let mut tried = 0;
        for mechanism in accepted_mechanisms {
            if !self.server_info.supports_auth_mechanism(*mechanism) {
                continue;
            }
            tried += 1;
            match self.auth(*mechanism, credentials).await {
                Ok(_) => return Ok(()),
                Err(Error::Permanent(response)) if tried == accepted_mechanisms.len() && tried == 1 => {
                    return Err(Error::Permanent(response))
                }
                Err(Error::Permanent(_)) => continue,
                Err(err) => return Err(err),
            }
        }
        if tried == 0 {
            info!("No supported authentication mechanisms available");
        }

        Ok(())
""")],
    r'''
fn main() {
    let m = Mock::new("220 mx\r\n", |l| if l.starts_with("EHLO") { ehlo(&["AUTH PLAIN XOAUTH2"]) } else { "535 no\r\n".into() });
    let mut t = connect(&m, SmtpClient::new());
    let c = Credentials::new("u".into(), "p".into());
    let r = run(t.try_login(&c, &[Mechanism::Plain, Mechanism::Xoauth2])).expect("hangs");
    assert!(r.is_err(), "login succeeded although it was rejected");
    assert_eq!(m.lines().iter().filter(|l| l.starts_with("AUTH")).count(), 1);
}
''')

bug('c14-prompt-prefix', 'C14', 'a LOGIN challenge that merely starts like a password prompt',
    'LOGIN answers every challenge that starts with "Password" with the password, whatever the rest asks for',
    [('src/authentication.rs', "                if vec![\"Password\", \"Password:\"].contains(&decoded_challenge) {\n",
      "                if decoded_challenge.starts_with(\"Password\") {\n")],
    r'''
fn main() {
    let c = Credentials::new("alice".into(), "wonderland".into());
    for p in ["Password for account mallory on evil.example", "Password\r\n", "Passwords", "password"] {
        assert!(Mechanism::Login.response(&c, Some(p)).is_err(), "{p:?} was answered");
    }
    assert_eq!(Mechanism::Login.response(&c, Some("Password:")).unwrap(), "wonderland");
    assert_eq!(Mechanism::Login.response(&c, Some("Username:")).unwrap(), "alice");
}
''')

bug('c15-delete-char', 'C15', 'an address that contains a DEL character',
    'the control character test is rewritten as a range that misses DEL (0x7f)',
    [('src/types.rs', "            !c.is_ascii() || c.is_ascii_control() || c.is_ascii_whitespace() || c == '<' || c == '>'\n",
      "            !c.is_ascii() || c <= ' ' || c == '<' || c == '>'\n")],
    r'''
fn main() {
    for c in 0u32..0x300 {
        let c = char::from_u32(c).unwrap();
        let s = format!("a{c}b@x.org");
        let good = ('!'..='~').contains(&c) && c != '<' && c != '>';
        let r = EmailAddress::new(s.clone());
        assert_eq!(r.is_ok(), good, "{s:?}");
        if let Ok(a) = r {
            assert_eq!(a.to_string(), s);
        }
    }
}
''')

bug('c16-retain-after-check', 'C16', 'an envelope whose recipients are all empty strings',
    'empty recipient addresses are removed after the check that there is a recipient, so an envelope without recipients can exist and given recipients get lost',
    [('src/types.rs', """        Ok(Envelope {
            forward_path: to,
""", """        let mut to = to;
        to.retain(|address| !address.0.is_empty());
        Ok(Envelope {
            forward_path: to,
""")],
    r'''
fn main() {
    for to in [vec![""], vec!["", "b@x.org", ""], vec!["a@x.org", "b@x.org"]] {
        let v: Vec<EmailAddress> = to.iter().map(|a| addr(a)).collect();
        let e = Envelope::new(None, v.clone()).unwrap();
        assert_eq!(e.to(), &v[..]);
        assert!(!e.to().is_empty());
    }
    assert!(Envelope::new(None, vec![]).is_err());
}
''')

bug('c17-empty-value', 'C17', 'a custom MAIL or RCPT parameter with an empty value',
    'a custom parameter with an empty value is rendered without its equals sign',
    [('src/extension.rs', """            RcptParameter::Other {
                ref keyword,
                value: Some(ref value),
            } => write!(f, "{}={}", keyword, XText(value)),
""", """            RcptParameter::Other {
                ref keyword,
                value: Some(ref value),
            } if !value.is_empty() => write!(f, "{}={}", keyword, XText(value)),
"""), ('src/extension.rs', """            RcptParameter::Other {
                ref keyword,
                value: None,
            } => f.write_str(keyword),
""", """            RcptParameter::Other { ref keyword, .. } => f.write_str(keyword),
""")],
    r'''
fn main() {
    for v in [None, Some(""), Some("a b"), Some("x=y")] {
        let p = RcptParameter::Other { keyword: "ORCPT".into(), value: v.map(|s| s.to_string()) };
        let want = match v {
            None => "RCPT TO:<b@x.org> ORCPT\r\n".to_string(),
            Some(s) => format!("RCPT TO:<b@x.org> ORCPT={}\r\n", XText(s)),
        };
        assert_eq!(RcptCommand::new(addr("b@x.org"), vec![p]).to_string(), want);
    }
}
''')

bug('c18-codes-by-severity', 'C18', 'a multi-line reply whose lines have different codes of the same class',
    'the lines of a reply only need to have the same first digit, so a reply with differing codes is accepted',
    [('src/response.rs', "    if !lines.iter().all(|(code, _, _)| *code == last_code) {\n",
      "    if !lines.iter().all(|(code, _, _)| code.severity == last_code.severity) {\n")],
    r'''
fn main() {
    for (s, good) in [("250-a\r\n250 b\r\n", true), ("250-a\r\n251 b\r\n", false), ("250-a\r\n220-b\r\n250 c\r\n", false), ("250-a\r\n550 b\r\n", false)] {
        assert_eq!(s.parse::<Response>().is_ok(), good, "{s:?}");
    }
}
''')

bug('c19-eof-completes', 'C19', 'a connection that breaks in the middle of a reply line',
    'when the connection ends inside a reply line, the line is completed artificially and acted on',
    [('src/stream.rs', """            if read == 0 {
                break;
            }
""", """            if read == 0 {
                if buffer.is_empty() || buffer.ends_with('\\n') {
                    break;
                }
                // The peer closed the connection without a line ending.
                buffer.push_str("\\r\\n");
            }
""")],
    r'''
fn main() {
    for cut in ["250", "250 ", "250 queued as 12", "250-first\r\n250 la", "250-first\r\n"] {
        let m = Mock::new("220 mx\r\n", move |l| {
            if l.starts_with("EHLO") { ehlo(&[]) }
            else if l == "DATA" { "354 go\r\n".into() }
            else if l == "." { cut.to_string() }
            else { "250 OK\r\n".into() }
        });
        let mut t = connect(&m, SmtpClient::new());
        let r = run(t.send(mail(b"hello"))).expect("hangs");
        assert!(r.is_err(), "{cut:?} was taken for a complete reply");
    }
}
''')

bug('c20-code-prefix', 'C20', 'has_code with a number whose digits are a prefix of the reply code',
    'has_code accepts numbers that are a prefix of the code, so a class digit or pair matches a reply of another code',
    [('src/response.rs', "        self.code.to_string() == code.to_string()\n",
      "        self.code.to_string().starts_with(&code.to_string())\n")],
    r'''
fn main() {
    let r: Response = "334 VXNlcm5hbWU6\r\n".parse().unwrap();
    for n in 0..1000u16 {
        assert_eq!(r.has_code(n), n == 334, "{n}");
    }
}
''')

bug('c21-auth-break', 'C21', 'an AUTH line that lists an unknown mechanism before a known one, with a repeated unknown word',
    'reading the AUTH line stops at the second unknown mechanism, so known mechanisms after it are not recognised',
    [('src/extension.rs', """                    for &mechanism in &split[1..] {
                        match mechanism {""", """                    let mut unknown = 0;
                    for &mechanism in &split[1..] {
                        match mechanism {"""),
     ('src/extension.rs', """                            _ => (),
                        }
                    }
                }
                _ => (),
            };""", """                            _ => {
                                unknown += 1;
                                if unknown > 1 {
                                    break;
                                }
                            }
                        }
                    }
                }
                _ => (),
            };""")],
    r'''
fn info(line: &str) -> ServerInfo {
    let r: Response = format!("250-mx\r\n250 {line}\r\n").parse().unwrap();
    ServerInfo::from_response(&r).unwrap()
}
fn main() {
    for l in ["AUTH PLAIN", "AUTH CRAM-MD5 PLAIN", "AUTH SCRAM-SHA-1 SCRAM-SHA-256 CRAM-MD5 PLAIN LOGIN", "auth x y z plain"] {
        assert!(info(l).supports_auth_mechanism(Mechanism::Plain), "{l}");
        assert!(!info(l).supports_auth_mechanism(Mechanism::Xoauth2), "{l}");
    }
}
''')

bug('c22-collapse', 'C22', 'a value with several spaces in a row',
    'white space after an encoded character is skipped, so runs of spaces are shortened',
    [('src/util.rs', "                rest = &end[idx..];\n", "                rest = end[idx..].trim_start_matches(c);\n")],
    r'''
fn dec(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '+' {
            let h: String = it.by_ref().take(2).collect();
            out.push(u8::from_str_radix(&h, 16).unwrap() as char);
        } else {
            out.push(c);
        }
    }
    out
}
fn main() {
    for s in ["", "a b", "a  b", "++", "= =", "  ", "x\u{e9}  y", "a+b=c"] {
        assert_eq!(dec(&XText(s).to_string()), s, "{s:?}");
    }
}
''')

bug('c23-greeting-resets', 'C23', 'without_greeting applied after another setter',
    'without_greeting starts from a default client, so options set before it are lost',
    [('src/smtp_client.rs', """            expect_greeting: false,
            ..self
""", """            expect_greeting: false,
            hello_name: self.hello_name,
            ..Default::default()
""")],
    r'''
fn main() {
    let m = server(&["PIPELINING", "SMTPUTF8"]);
    m.with(|i| i.input.clear());
    let mut t = connect(&m, SmtpClient::new().smtp_utf8(true).without_greeting());
    run(t.send(mail(b"hi"))).expect("hangs").expect("send");
    assert!(m.lines().iter().any(|l| l.starts_with("MAIL") && l.contains("SMTPUTF8")), "{:?}", m.lines());
}
''')

bug('c24-interrupted', 'C24', 'a message reader that returns an Interrupted error once',
    'an Interrupted error of the supplied reader is reported as the end of the message',
    [('src/types.rs', """        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        match self.project() {
            MessageProj::Reader(mut rdr) => {
                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                r.poll_read(cx, buf)
            }
""", """        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        match self.project() {
            MessageProj::Reader(mut rdr) => {
                // Probably safe..
                let r: Pin<&mut _> = unsafe { Pin::new_unchecked(&mut **rdr) };
                match r.poll_read(cx, buf) {
                    Poll::Ready(Err(err)) if err.kind() == io::ErrorKind::Interrupted => {
                        Poll::Ready(Ok(()))
                    }
                    res => res,
                }
            }
""")],
    r'''
fn main() {
    let e = SendableEmail::new_with_reader(
        Envelope::new(None, vec![addr("b@x.org")]).unwrap(),
        Box::new(Rd(vec![Ok(b"one".to_vec()), Err(std::io::ErrorKind::Interrupted), Ok(b"two".to_vec())], 0)),
    );
    let mut msg = Box::pin(e.message());
    let mut got = vec![];
    let mut errs = 0;
    let mut cx = Context::from_waker(std::task::Waker::noop());
    loop {
        let mut b = [0u8; 16];
        let mut rb = tokio::io::ReadBuf::new(&mut b);
        match tokio::io::AsyncRead::poll_read(msg.as_mut(), &mut cx, &mut rb) {
            Poll::Ready(Ok(())) if rb.filled().is_empty() => break,
            Poll::Ready(Ok(())) => got.extend_from_slice(rb.filled()),
            Poll::Ready(Err(_)) => errs += 1,
            Poll::Pending => panic!(),
        }
    }
    assert_eq!((&got[..], errs), (&b"onetwo"[..], 1));
}
''')

bug('c25-rc-across-await', 'C25', 'spawning the future of send on a multi-threaded executor (compile time)',
    'send keeps an Rc across its awaits, so its future is not Send any more',
    [('src/smtp_client.rs', """        // Mail
        let mut mail_options = vec![];
""", """        // Shared with the log messages below.
        let recipients = std::rc::Rc::new(email.envelope().to().len());

        // Mail
        let mut mail_options = vec![];
"""), ('src/smtp_client.rs', """            debug!(
                "status=sent ({})",
""", """            debug!(
                "status=sent to {} ({})",
                recipients,
""")],
    r'''
fn send<T: Send>(t: T) -> T {
    t
}
fn main() {
    let m = server(&[]);
    let mut t = connect(&m, SmtpClient::new());
    run(send(t.send(mail(b"hi")))).expect("hangs").expect("send");
    run(send(t.quit())).expect("hangs").expect("quit");
}
''')

bug('c26-challenge-without-text', 'C26', 'a server that sends a 334 challenge without text',
    'a challenge without text makes the client panic instead of failing',
    [('src/commands.rs', """            .first_word()
            .ok_or(Error::ResponseParsing("Could not read auth challenge"))?;
""", """            .first_word()
            .expect("a 334 reply carries a challenge");
""")],
    r'''
fn main() {
    for ch in ["334 VXNlcm5hbWU6\r\n", "334 \r\n", "334\r\n", "334    \r\n", "334 !!!\r\n"] {
        let m = Mock::new("220 mx\r\n", move |l| {
            if l.starts_with("EHLO") { ehlo(&["AUTH LOGIN"]) }
            else if l == "*" { "501 cancelled\r\n".into() }
            else if l.starts_with("AUTH") { ch.into() }
            else { "535 no\r\n".into() }
        });
        let mut t = connect(&m, SmtpClient::new());
        let c = Credentials::new("u".into(), "p".into());
        let r = run(t.auth(Mechanism::Login, &c)).expect("hangs");
        assert!(r.is_err());
    }
}
''')

bug('c27-async-std-flush', 'C27', 'the async-std runtime and a stream that buffers writes',
    'with async-std commands are not flushed, so over a buffered stream both sides wait for each other',
    [('src/stream.rs', """        self.inner.write_all(string).await?;
        self.inner.flush().await?;

        debug!(""", """        self.inner.write_all(string).await?;
        // async-std streams are not buffered.
        #[cfg(feature = "runtime-tokio")]
        self.inner.flush().await?;

        debug!(""")],
    r'''
use async_smtp::*;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
struct M(Arc<Mutex<(Vec<u8>, usize, usize)>>);
impl std::fmt::Debug for M {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
const IN: &[u8] = b"220 mx\r\n250-mx\r\n250 OK\r\n221 bye\r\n";
impl async_std::io::Read for M {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        assert!(g.0.is_empty(), "waits for a reply with unflushed bytes");
        let k = b.len().min(IN.len() - g.1);
        b[..k].copy_from_slice(&IN[g.1..g.1 + k]);
        g.1 += k;
        Poll::Ready(Ok(k))
    }
}
impl async_std::io::BufRead for M {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let g = self.0.lock().unwrap();
        assert!(g.0.is_empty(), "waits for a reply with unflushed bytes");
        // one line at a time
        let n = IN[g.1..].iter().position(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0);
        Poll::Ready(Ok(&IN[g.1..g.1 + n]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) { self.0.lock().unwrap().1 += n; }
}
impl async_std::io::Write for M {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        self.0.lock().unwrap().0.extend_from_slice(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.0.lock().unwrap().0.clear();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..100000 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; }
    }
    panic!("hangs")
}
fn main() {
    let m = M(Arc::new(Mutex::new((vec![], 0, 0))));
    let mut t = run(SmtpTransport::new(SmtpClient::new(), m)).expect("connect");
    run(t.quit()).expect("quit");
}
''', raw=True, astd=True)

bug('c13-already-authenticated', 'C13', 'a server that answers the AUTH command itself with 503',
    'a 503 rejection of AUTH is taken for "already authenticated" and auth returns it as success',
    [('src/smtp_client.rs', """        let mut response = self
            .stream
            .command(AuthCommand::new(mechanism, credentials.clone(), None)?)
            .await?;
""", """        let mut response = match self
            .stream
            .command(AuthCommand::new(mechanism, credentials.clone(), None)?)
            .await
        {
            Ok(response) => response,
            // Already authenticated.
            Err(Error::Permanent(response)) if response.has_code(503) => return Ok(response),
            Err(err) => return Err(err),
        };
""")],
    r'''
fn main() {
    let m = Mock::new("220 mx\r\n", |l| {
        if l.starts_with("EHLO") { ehlo(&["AUTH PLAIN"]) }
        else if l.starts_with("AUTH") { "503 bad sequence of commands\r\n".into() }
        else { "250 OK\r\n".into() }
    });
    let mut t = connect(&m, SmtpClient::new());
    let c = Credentials::new("user".into(), "secret".into());
    let r = run(t.auth(Mechanism::Plain, &c)).expect("hangs");
    assert!(matches!(r, Err(Error::Permanent(_))), "{r:?}");
}
''')

bug('c31-reset-as-eof', 'C31', 'the connection is reset while the client waits for a reply',
    'a connection reset while reading a reply is treated like the end of the connection, so the error that the stream reported is lost',
    [('src/stream.rs', """            let read = reader.read_line(&mut buffer).await?;
""", """            let read = match reader.read_line(&mut buffer).await {
                Ok(read) => read,
                Err(err) if err.kind() == std::io::ErrorKind::ConnectionReset => 0,
                Err(err) => return Err(err.into()),
            };
""")],
    r'''
fn main() {
    let m = server(&["PIPELINING"]);
    let mut t = connect(&m, SmtpClient::new());
    m.with(|i| i.fail_read = Some(i.reads));
    match run(t.quit()).expect("hangs") {
        Err(Error::Io(e)) => assert_eq!(e.kind(), std::io::ErrorKind::ConnectionReset, "{e:?}"),
        r => panic!("{r:?}"),
    }
}
''')

bug('c32-environment', 'C32', 'the environment variable SMTP_NO_PIPELINING is set in the process',
    'whether a transaction is pipelined depends on the environment of the process',
    [('src/smtp_client.rs', """            self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
""", """            self.supports_feature(Extension::Pipelining)
                && self.client_info.pipelining
                && std::env::var_os("SMTP_NO_PIPELINING").is_none();
""")],
    r'''
fn main() {
    let mut logs = vec![];
    for set in [false, true] {
        if set { std::env::set_var("SMTP_NO_PIPELINING", "1") } else { std::env::remove_var("SMTP_NO_PIPELINING") }
        let m = server(&["PIPELINING"]);
        let mut t = connect(&m, SmtpClient::new());
        let env = Envelope::new(Some(addr("a@x.org")), vec![addr("b@x.org"), addr("c@x.org")]).unwrap();
        run(t.send(SendableEmail::new(env, "hello"))).expect("hangs").expect("send");
        logs.push(m.with(|i| i.log.clone()));
    }
    assert!(logs[0] == logs[1], "the environment changes what is done on the stream");
}
''')

bug('c33-error-drops-lines', 'C33', 'a 5xx reply of five lines or more',
    'the text of a permanent error holds only the first four lines of the reply',
    [('src/error.rs', """    #[error("permanent: {}", if .0.message.is_empty() { "undetailed error during SMTP transaction".to_string() } else { .0.message.join("; ") })]
""", """    #[error("permanent: {}", if .0.message.len() < 2 { .0.first_line().unwrap_or("undetailed error during SMTP transaction").to_string() } else { .0.message[..4.min(.0.message.len())].join("; ") })]
""")],
    r'''
fn main() {
    let r: Response = "550-one\r\n550-two\r\n550-three\r\n550-four\r\n550 five\r\n".parse().unwrap();
    let e: Error = r.into();
    let s = e.to_string();
    for l in ["one", "two", "three", "four", "five"] {
        assert!(s.contains(l), "{s}");
    }
}
''')

bug('c34-pipelining-off', 'C34', 'a message that is rejected after its content, followed by another message on the same transport',
    'after a failed message pipelining is switched off for the rest of the connection, whatever the client configured',
    [('src/smtp_client.rs', """        if let Ok(result) = &res {
            // Log the message
""", """        if res.is_err() {
            self.client_info.pipelining = false;
        }
        if let Ok(result) = &res {
            // Log the message
"""), ('src/smtp_client.rs', """        // Message content
        if""", """        if""")],
    r'''
fn main() {
    let mut n = 0;
    let m = Mock::new("220 mx\r\n", move |l| {
        if l.starts_with("EHLO") { ehlo(&["PIPELINING"]) }
        else if l == "DATA" { "354 go\r\n".into() }
        else if l == "." { n += 1; if n == 1 { "554 spam\r\n".into() } else { "250 OK\r\n".into() } }
        else { "250 OK\r\n".into() }
    });
    let mut t = connect(&m, SmtpClient::new());
    let mail = || SendableEmail::new(Envelope::new(Some(addr("a@x.org")), vec![addr("b@x.org"), addr("c@x.org")]).unwrap(), "hello");
    let reads = |a: usize| m.with(|i| i.log[a..].to_vec());
    let a = m.with(|i| i.log.len());
    assert!(run(t.send(mail())).expect("hangs").is_err());
    let first = reads(a);
    let b = m.with(|i| i.log.len());
    assert!(run(t.send(mail())).expect("hangs").is_ok());
    let second = reads(b);
    // the same order of writes and reads up to the content
    let shape = |v: &[Ev]| v.iter().take(12).map(|e| matches!(e, Ev::Read(_))).collect::<Vec<_>>();
    assert_eq!(shape(&first), shape(&second), "the second message is not pipelined");
}
''')
