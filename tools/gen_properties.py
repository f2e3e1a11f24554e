#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=None)))

SC, ST, CO, TY, CM, EX, RE, AU, ER, UT = ["src/%s.rs" % n for n in
  "smtp_client stream codec types commands extension response authentication error util".split()]

p("C01", "Message transparency: content survives dot-stuffing and cannot end DATA early",
  "For every message content, the bytes written between the server's go-ahead for DATA and the end-of-data marker are such that a server which ends the message at the first line consisting of a single dot (lines end with CRLF) and removes one leading dot from every other line that starts with one recovers exactly the supplied content, followed by one CRLF. In particular a line of the content that begins with a dot, including the very first line, is always transmitted with one extra dot, nothing else is added, dropped, altered or reordered, and no content can terminate the data phase early and have its remainder executed as commands.",
  ["inputs"], "all byte strings as message content, however the lines and the CR, LF and dot bytes fall",
  "One unit test feeds nine short frames to the encoder. It never encodes a message that starts with a dot or contains CR CR LF, and never looks at the wire of a whole message.",
  [CO, ST], [("line-start state machine of the encoder", "src/codec.rs ClientCodec::encode"), ("message body writer", "src/stream.rs SmtpStream::message")],
  ["bytes written to the stream during SmtpTransport::send"],
  [("escape_count", "progress through CR LF", "ClientCodec")])
p("C02", "End-of-data is sent exactly once, and only after the complete message",
  "While sending an email, the end-of-data marker is written exactly once, after the message source has been read to its end without error and all of its content has been written without error, and the reply is awaited only after that. If reading the message source or writing any part of it fails, the end-of-data marker is never written and the send fails, so a truncated message is never committed.",
  ["inputs", "fault_sequences"], "all message sources and every position at which the source or the connection can fail",
  "No existing test runs send at all; no test injects a failing reader or writer.",
  [ST, TY], [("read_to_end before encode before terminator, each with ?", "src/stream.rs SmtpStream::message")],
  ["bytes written to the stream", "result of SmtpTransport::send"])
p("C03", "No message content unless sender, every recipient and DATA were accepted",
  "No byte of the message content or of the end-of-data marker is written unless, in the same transaction, the server has already given a positive reply to MAIL, to RCPT for every recipient of the envelope, and to DATA. If any of them was rejected, send returns the server's rejection and writes no content, with and without pipelining.",
  ["inputs", "histories"], "all envelopes, all server reply sequences, both pipelined and lock-step operation, any earlier operations on the transport",
  "No existing test drives a transport against a server; the accept/reject combinations grow with the number of recipients.",
  [SC, ST], [("? on every command reply before message()", "src/smtp_client.rs SmtpTransport::send")],
  ["bytes written to the stream and replies consumed during SmtpTransport::send"])
p("C04", "The envelope is transmitted faithfully and in protocol order",
  "Each send writes exactly one MAIL command carrying the envelope's sender (or the empty path when there is none), then exactly one RCPT command per envelope recipient, in envelope order, carrying that recipient's address unchanged, then exactly one DATA command, then the message content; nothing else is written, and a failed send writes at most a prefix of this sequence.",
  ["inputs", "histories"], "all envelopes (any number of recipients), all server replies, any earlier operations",
  "The tests only format single commands; none sends an envelope.",
  [SC, CM, TY], [("MailCommand / RcptCommand loop / DataCommand", "src/smtp_client.rs SmtpTransport::send"), ("Envelope accessors", "src/types.rs")],
  ["commands written to the stream during SmtpTransport::send"])
p("C05", "Commands and replies stay in lock step",
  "Every command (and every finished message) written to the server is answered by exactly one reply that the client consumes before the operation that wrote it returns, in order, and the client never waits for a reply it is not owed. This also holds when the server rejects one or several commands of a pipelined group, so that after any operation that did not fail with an I/O or reply-parsing error the next operation's replies are its own.",
  ["histories", "inputs"], "all sequences of operations on a transport, all envelopes, all server replies (positive and negative at any position), pipelining on or off",
  "No test drives a transport; a stale reply only shows up in the operation after the one that left it behind.",
  [SC, ST], [("command = send_command + read_response", "src/stream.rs"), ("sent_commands counter", "src/smtp_client.rs SmtpTransport::send")],
  ["interleaving of commands written and replies read, per operation"])
p("C06", "Commands are pipelined only when the server offers it and the client allows it",
  "A command is written while the reply to an earlier command is still outstanding only if the server advertised PIPELINING in its EHLO reply and the client configuration has pipelining enabled; otherwise every command waits for the previous reply. Only MAIL, RCPT and DATA are ever pipelined.",
  ["configurations", "inputs"], "all client configurations, all advertised feature sets, all envelopes",
  "No test runs send with either setting.",
  [SC, EX], [("pipelining condition", "src/smtp_client.rs SmtpTransport::send")],
  ["interleaving of commands written and replies read"])
p("C07", "Everything written is flushed before the client waits for a reply",
  "Whenever the client starts waiting for a server reply, and whenever an operation succeeds, everything it has written to the stream has been flushed, so that a buffered stream can never leave both peers waiting for each other.",
  ["inputs", "histories"], "all operations, all paths, with any buffered stream",
  "The tests never use a stream; against an unbuffered stream a missing flush is invisible.",
  [ST, CO], [("flush after write_all", "src/stream.rs SmtpStream::write, message")],
  ["order of write, flush and read calls on the stream"])
p("C08", "No I/O failure and no negative reply is ever reported as success",
  "An operation of the transport (connect, login, STARTTLS, send, quit) succeeds only if every read, write and flush it performed succeeded, and every server reply it consumed was complete and positive; send and auth return the server's last reply. After a failed read, write or flush, or an unparsable or truncated reply, nothing more is written and the operation fails.",
  ["fault_sequences", "inputs"], "every I/O call of every operation failing in turn, every reply being negative, malformed or cut off",
  "No test injects an I/O failure or a negative reply.",
  [SC, ST, CO], [("? on every I/O call and reply", "src/stream.rs, src/smtp_client.rs, src/codec.rs")],
  ["outcome of each I/O call versus result of the operation"])
p("C09", "Connection set-up: greeting, then EHLO, then the features of that EHLO reply",
  "Creating a transport first consumes the server greeting (unless configured not to expect one, in which case nothing is read before EHLO), writes exactly one EHLO command with the configured client name, and succeeds only if greeting and EHLO reply are positive; the server features used afterwards are those of that EHLO reply. No other command is written during set-up, and nothing is written before the greeting.",
  ["configurations", "inputs"], "all client names and greeting settings, all greetings and EHLO replies",
  "No test creates a transport.",
  [SC, ST], [("SmtpTransport::new", "src/smtp_client.rs")], ["bytes written and replies read by SmtpTransport::new"])
p("C10", "MAIL parameters are used exactly when negotiated",
  "The MAIL command carries BODY=8BITMIME exactly when the server advertised 8BITMIME, and SMTPUTF8 exactly when the server advertised SMTPUTF8 and the client enabled it; it carries no other parameter, RCPT carries none, and pipelining does not change the parameters.",
  ["configurations", "inputs"], "all feature sets and client configurations",
  "No test runs send; test_display only formats explicitly given parameters.",
  [SC, EX], [("mail_options", "src/smtp_client.rs SmtpTransport::send")], ["MAIL and RCPT commands written to the stream"])
p("C11", "STARTTLS yields the stream only after the server agreed",
  "STARTTLS is written only if the server advertised it. The underlying stream is handed back for the TLS upgrade only after a positive reply to STARTTLS was consumed, with nothing written or read after that; when STARTTLS is not advertised or is rejected the caller gets an error, never the plaintext stream.",
  ["inputs", "histories"], "all feature sets and server replies, any earlier operations",
  "No test calls starttls.",
  [SC], [("SmtpTransport::starttls", "src/smtp_client.rs")], ["result of SmtpTransport::starttls versus bytes and replies"])
p("C12", "Login uses only a mechanism that the caller accepts and the server offers",
  "try_login authenticates with the first mechanism in the caller's list that the server advertised, and with no other; if there is none it writes nothing to the server and in particular discloses no credentials. Credentials are only written as part of AUTH exchanges, and try_login fails if that authentication fails.",
  ["inputs", "configurations"], "all mechanism lists, all advertised mechanisms, all credentials and replies",
  "No test calls try_login.",
  [SC, EX, AU], [("find over accepted mechanisms", "src/smtp_client.rs SmtpTransport::try_login"), ("supports_auth_mechanism", "src/extension.rs")],
  ["AUTH commands written by SmtpTransport::try_login"])
p("C13", "AUTH reports the server's verdict, is bounded, and is never left open",
  "auth succeeds exactly when the server's last reply in the exchange is positive and is not a further challenge (334), and then returns that reply. The client writes a response only to a 334 challenge, answers a bounded number of them, and does not return while the server is still waiting for the answer to a challenge: when it cannot or will not answer, it cancels the exchange with a line consisting of a single asterisk, consumes the reply and fails, so that the next command is not taken for a challenge response.",
  ["inputs", "histories"], "all challenge sequences of any length and content, all mechanisms and credentials",
  "No test runs an authentication exchange.",
  [SC, CM, AU], [("challenge loop", "src/smtp_client.rs SmtpTransport::auth"), ("new_from_response", "src/commands.rs")],
  ["lines written and replies consumed by SmtpTransport::auth"])
p("C14", "SASL payloads are exact and go only to the matching prompt",
  "PLAIN sends NUL username NUL password and XOAUTH2 sends user=<name>^Aauth=Bearer <token>^A^A as the base64 initial response of the AUTH line; LOGIN sends a bare AUTH LOGIN line and answers a user name prompt with only the username and a password prompt with only the password, each base64-encoded on a line of its own. An unrecognised or undecodable challenge, or any challenge under PLAIN or XOAUTH2, is never answered with credentials.",
  ["inputs"], "all credentials, all challenges, all mechanisms",
  "Three unit tests try one credential pair and two prompts; the password prompt with and without colon, unknown prompts and the wire form of LOGIN answers are not covered.",
  [AU, CM], [("Mechanism::response", "src/authentication.rs"), ("AuthCommand Display / new_from_response", "src/commands.rs")],
  ["lines written by SmtpTransport::auth", "value of Mechanism::response"])
p("C15", "No email address can break out of its command line",
  "Every email address value that can be constructed through the public API consists only of ASCII characters other than control characters, space, '<' and '>', every string of such characters is accepted unchanged, and every other string is rejected; an address cannot be altered once constructed. Hence the MAIL and RCPT commands built from it are a single line with a single path.",
  ["inputs", "programs"], "all strings, all ways to construct or obtain an address",
  "test_email_address tries eight strings; it cannot see a second constructor or a character class that was left out.",
  [TY], [("character filter in EmailAddress::new", "src/types.rs"), ("private field", "src/types.rs EmailAddress")],
  ["values of EmailAddress"])
p("C16", "An envelope always has a recipient and reports what it was given",
  "An envelope can only be created with at least one recipient; with no recipients creation fails, and with recipients it succeeds. Afterwards its accessors return exactly the sender and the recipients it was created with, in the same order, and it cannot be altered.",
  ["inputs", "programs"], "all sender/recipient lists, all ways to construct or obtain an envelope",
  "No test touches Envelope.",
  [TY], [("Envelope::new and accessors, private fields", "src/types.rs")], ["values of Envelope"])
p("C17", "Every command renders as exactly one correctly formed line",
  "Every SMTP command value renders as its RFC form: the verb, its arguments in the required punctuation and order, each parameter preceded by a single space, and one CRLF at the very end and nowhere else in the fixed text. Client identifiers render as a bare domain, [IPv4] or [IPv6:address], and MAIL/RCPT parameters render as KEYWORD or KEYWORD=value, with custom values in xtext.",
  ["inputs"], "all values of all command, parameter and client identifier types",
  "test_display formats one or two values per command; parameter lists, IPv6 identifiers, absent values and several variants are never rendered.",
  [CM, EX], [("Display impls", "src/commands.rs, src/extension.rs")], ["Display output of commands and of their argument types"])
p("C18", "Reply parsing accepts exactly the SMTP reply grammar",
  "Text is accepted as a server reply exactly if it starts with a sequence of zero or more continuation lines (code, hyphen, text) and one final line (code, then nothing or a space and text), all ended by CRLF and all with the same three-digit code, whose digits are 2-5, 0-5 and 0-9; the parsed reply has that code and the texts of all these lines in order, unchanged. Text that is a proper prefix of whole lines of such a reply is reported as incomplete and not as an error, and differing codes are an error.",
  ["inputs"], "all reply texts",
  "The tests parse one reply of four lines and three malformed variants.",
  [RE], [("nom grammar parse_response", "src/response.rs")], ["result of Response::from_str and of reading replies"])
p("C19", "A reply is acted on only when completely received",
  "The client keeps reading lines while the reply received so far is incomplete, gives the parser all the bytes received since the previous reply and no others, and reports an error (never a reply) when the connection ends or the text is malformed before the reply is complete. A complete positive reply is always returned as success and a complete negative reply as an error.",
  ["inputs", "fault_sequences"], "all reply lengths and line splits, end of connection at every point",
  "No test reads a reply from a stream.",
  [ST, RE], [("read_response loop", "src/stream.rs SmtpStream::read_response")],
  ["stream reads versus result of each operation"])
p("C20", "Reply codes are classified and preserved correctly",
  "A reply is positive exactly when its first digit is 2 or 3; a reply with first digit 4 becomes a transient error and one with 5 a permanent error, each carrying the complete reply. The numeric code that a reply displays or is compared with is exactly the three digits the server sent, for all 240 codes.",
  ["inputs"], "all 240 reply codes and all u16 values compared with them",
  "The tests sample five codes and one conversion.",
  [RE, ER], [("enum discriminants, Display, has_code, is_positive", "src/response.rs"), ("From<Response> for Error", "src/error.rs")],
  ["Response::is_positive, Response::has_code, Code::to_string, Error::from(Response)"])
p("C21", "Exactly the advertised extensions are recognised",
  "From an EHLO reply the client recognises an extension (PIPELINING, 8BITMIME, SMTPUTF8, STARTTLS, or AUTH with PLAIN, LOGIN or XOAUTH2) exactly when some line of the reply starts with that keyword (for AUTH: and lists that mechanism among its words), whatever the letter case, position, extra parameters or unknown lines; support queries answer according to that set. The server name is the first word of the reply's first line, and a reply without one is an error.",
  ["inputs"], "all EHLO replies",
  "test_serverinfo parses two replies; LOGIN, PIPELINING, SMTPUTF8 and STARTTLS lines are never parsed and lower-case keywords never tried.",
  [EX, RE], [("ServerInfo::from_response and supports_*", "src/extension.rs")], ["ServerInfo returned for an EHLO reply"])
p("C22", "xtext encoding is reversible and stays within the xtext alphabet",
  "In the xtext form of a string, every ASCII character outside '!'..'~' and every '+' and '=' is written as '+' followed by exactly two upper-case hexadecimal digits of its code, and every other character is written unchanged, in order, with none lost or duplicated.",
  ["inputs"], "all strings",
  "The test encodes four strings, none with a control character.",
  [UT], [("Display for XText", "src/util.rs")], ["Display output of XText"])
p("C23", "Client options are independent and keep their defaults",
  "A new client expects a greeting, has pipelining enabled, SMTPUTF8 disabled and the default client name; each option setter changes exactly its own option to the given value and leaves all the others as they were, in whatever order the setters are applied.",
  ["configurations", "programs"], "all sequences of option setters and values",
  "No test builds a client.",
  [SC], [("builder methods of SmtpClient", "src/smtp_client.rs")], ["effect of each setter on each option"])
p("C24", "Message sources deliver exactly the bytes they were given",
  "Reading the message of an email yields exactly the byte vector or exactly what the supplied reader yields, from the start, passing the underlying reader's result through unchanged on every poll, and the envelope of an email is the one it was created with. The only unsafe code is pin projection onto a boxed reader that is never moved out.",
  ["inputs", "schedules"], "all message sources, all poll sequences",
  "No test reads a Message.",
  [TY], [("AsyncRead for Message", "src/types.rs"), ("SendableEmail constructors", "src/types.rs")], ["poll_read of Message", "SendableEmail::message, envelope"])
p("C25", "Operations can be spawned: futures and types keep their auto traits",
  "With a stream that is Send, the future of every transport operation (connect, login, auth, STARTTLS, send, quit) and the transport itself are Send; client, emails, envelopes, addresses, credentials, server info, replies and errors are Send and Sync, and errors implement std Error and are 'static.",
  ["programs"], "all user programs that move these values across threads or spawn these futures, with either runtime",
  "The tests are single crates that block on futures in place; auto traits are never required.",
  [SC, ST, TY, ER], [("types held across await points", "src/smtp_client.rs, src/stream.rs")], ["type checking of user programs"])
p("C26", "No server reply, message or parameter can make the client panic",
  "For every server reply, message content, envelope, credential, challenge, client configuration and order of operations, the library's operations return a result; they do not panic, index out of bounds, slice at an invalid position or reach code declared unreachable.",
  ["inputs", "histories"], "all inputs and server behaviours",
  "A panic needs the one input that the tests do not contain.",
  [CO, EX, RE, CM, SC, ST, UT, AU, TY], [("total matching, guarded slicing and checked states", "all modules")], ["panic sites reachable from the public API"])
p("C27", "Both runtimes speak the same protocol",
  "Whichever runtime feature the library is built with, every operation performs the same sequences of writes, flushes and reads on the stream, with the same contents, and returns the same results for the same server replies and I/O outcomes.",
  ["configurations", "inputs"], "both runtime features, all inputs and replies",
  "The tests run once per runtime but never compare behaviour and never touch a stream.",
  [SC, ST, CO, TY, ER], [("cfg(feature) alternatives", "src/stream.rs, src/codec.rs, src/types.rs")], ["stream traffic and results of each operation per runtime"])
p("C31", "An error tells its cause",
  "An operation that fails because the stream or the message source reported an I/O error returns Error::Io with that very error; when the connection ends before a reply is complete it returns Error::Io; when a reply is malformed it returns a parsing error; when the server rejects a command it returns Error::Transient for a 4xx and Error::Permanent for a 5xx reply, carrying that reply. These kinds are returned in no other case: when the client itself gives up (STARTTLS not advertised, an unanswerable challenge, which ends with the reason for cancelling) the error is one of the others.",
  ["inputs", "fault_sequences", "histories"], "all server replies, all positions at which the stream or the message source can fail, all operations",
  "No test injects an I/O failure or a rejection into an operation; callers decide by the kind of error whether to retry.",
  [SC, ST, ER], [("? and From conversions", "src/error.rs"), ("end of connection in the reply loop", "src/stream.rs SmtpStream::read_response")], ["error returned by each operation of SmtpTransport"])
p("C32", "Outcomes depend only on what the caller supplied",
  "The library performs I/O only on the stream and the message source that the caller supplied. It opens no files, sockets or processes, reads no environment variable and no clock, prints nothing, starts no tasks, threads or timers, never blocks the thread, and keeps no state outside the values it hands to the caller. Only ClientId::hostname asks the operating system for the host name.",
  ["inputs", "configurations", "histories"], "all inputs, environments and histories of the process",
  "A test sees one environment; an ambient effect shows only where the environment differs or the executor is starved.",
  [SC, ST, CO, TY, EX, AU], [("all I/O goes through SmtpStream::inner and the message reader", "src/stream.rs"), ("ClientId::hostname", "src/extension.rs")], ["functions called, statics"])
p("C33", "Replies and errors present the server's words faithfully",
  "A reply keeps the code and lines it was made of; first_line is the text of its first line, first_word the first whitespace-separated word of its first line, and each is None exactly when there is no such line or word. The text of a transient or permanent error contains every line of the reply completely, in order and separated from one another.",
  ["inputs"], "all codes, numbers of lines and line texts",
  "One test formats an error with one line; the accessors are not tested on blank or missing lines.",
  [RE, ER], [("Response::first_line, first_word", "src/response.rs"), ("Display of Error", "src/error.rs")], ["results of the accessors", "text of errors"])
p("C34", "Options and server features govern every transaction alike",
  "Once a transport is set up, no operation changes its client configuration or its server features, and every send writes RCPT without waiting for the replies to earlier commands of the transaction exactly when the server advertised PIPELINING and the client configuration has pipelining enabled, whatever the message, the envelope and the operations before.",
  ["inputs", "histories"], "all envelopes and messages, any earlier operations and replies",
  "No test drives a transport at all, let alone twice.",
  [SC], [("client_info, server_info", "src/smtp_client.rs SmtpTransport"), ("pipelining decision", "src/smtp_client.rs SmtpTransport::send")], ["commands written and replies awaited during SmtpTransport::send"],
  [("client_info", "options of the client", "SmtpTransport"), ("server_info", "features of the EHLO reply", "SmtpTransport")])
# --- properties that static analysis cannot settle here (not applicable)
p("C28", "Dropping an operation's future half-way leaves no half-written command",
  "If the future of an operation is dropped while pending, the transport never afterwards sends bytes that the server could take for something the caller did not ask for.",
  ["schedules"], "every await point at which a future can be dropped",
  "No test drops a future.",
  [SC, ST], [("none: the API takes no precautions", "src/stream.rs")], ["bytes written after a dropped operation"])
p("C29", "Time and memory spent on a hostile server are bounded",
  "A server that sends endless reply lines, or never answers, cannot make the client use unbounded memory or wait forever.",
  ["inputs", "schedules"], "all server behaviours over time",
  "No test runs against a server.",
  [ST], [("none", "src/stream.rs read_response")], ["memory and time of an operation"])
p("C30", "Pipelining cannot deadlock on transport windows",
  "Writing a whole pipelined command group before reading any reply cannot deadlock with a server that stops reading until its replies are read, for any number of recipients.",
  ["inputs", "schedules"], "all envelope sizes and transport buffer sizes",
  "No test runs a pipelined send.",
  [SC], [("none: the group is written before any reply is read", "src/smtp_client.rs SmtpTransport::send")], ["progress of SmtpTransport::send"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
