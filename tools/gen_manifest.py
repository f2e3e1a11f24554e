#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json (run by hand; the output is committed)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
AI = "abstract interpretation of the crate's MIR (path-sensitive, symbolic inputs, loop invariants by widening); "
T = {
 'C01': AI + "monitor automaton over the symbolic output of send: CRLF/dot state of every content byte",
 'C02': AI + "typestate of message source, content and end-of-data marker in send",
 'C03': AI + "protocol typestate: no content before positive MAIL, RCPT*, DATA replies",
 'C04': AI + "output monitor: rendered MAIL/RCPT*/DATA lines compared with the envelope, in order",
 'C05': AI + "counter of outstanding replies on every path, as a relation kept across loops",
 'C06': AI + "write-while-reply-outstanding obligations against feature and option facts",
 'C07': AI + "unflushed-bytes typestate at every read and successful return",
 'C08': AI + "error-flow: failed I/O and negative replies tracked to every return value",
 'C09': AI + "connection typestate: greeting, EHLO, features",
 'C10': AI + "rendered MAIL/RCPT parameters compared with feature and option facts on each path",
 'C11': AI + "STARTTLS typestate and provenance of the returned stream",
 'C12': AI + "AUTH lines against the accepted list and feature facts; taint of credentials",
 'C13': AI + "SASL exchange typestate with bounded challenge counter",
 'C14': AI + "symbolic text of every SASL line compared with its definition; taint of credentials",
 'C15': AI + "character-set abstraction of accepted addresses; closure over all functions that make or change one",
 'C16': AI + "constructor and accessor contracts of the envelope; closure over all functions that make or change one",
 'C17': AI + "symbolic rendering of every command compared with its RFC form",
 'C18': AI + "the nom grammar as transducer over symbolic line texts; accepted language and result compared with the reply grammar line by line",
 'C19': AI + "reply buffer and line position monitor in the reader loop",
 'C20': AI + "exhaustive over the 240 codes with symbolic numbers; provenance of the reply inside errors",
 'C21': AI + "an arbitrary distinguished line naming each extension among arbitrary others must reach the set; every insertion must be justified by known words; queries by provenance",
 'C22': AI + "output monitor over the encoder loop: position and character class of every piece written",
 'C23': AI + "constructor and setter contracts of the client options",
 'C24': AI + "provenance of the value returned by every poll and of the message and envelope of an email; query for unsafe operations over all MIR",
 'C25': "type-level witnesses: generic functions requiring the auto traits, type-checked against the current crate for both runtimes, with compile-fail controls",
 'C26': AI + "reachability of every panic site (assertions, indexing, slicing, unwraps, unreachable code) from every public function and operation",
 'C27': AI + "comparison of the complete sets of abstract I/O events of both runtime builds",
 'C31': AI + "cause of every failure (I/O error, end of connection, malformed or negative reply) tracked to the error variant and payload returned",
 'C32': "effect analysis: every function mentioned in the MIR of the crate and of the library code it instantiates is looked up in a table of ambient effects, every static is checked for mutability; reachability over the call graph for the host name",
 'C33': AI + "accessor contracts and an output monitor over the text of errors for symbolic replies with arbitrarily many lines",
 'C34': AI + "configuration and feature values compared before and after every operation in every history; write-without-waiting obligations against feature and option facts",
}
NOTE = "Sound over all inputs, replies, lists and I/O outcomes for the analysed code, given the models of library functions (trusted base in the evidence file) and no counter overflow; a construct the engine cannot follow is reported as undecided in the evidence, never as holding."
NA = {
 'C28': "async-smtp takes no precaution against dropped futures, so the property is false for any operation that writes (a half-written line stays on the wire) and the callers' guarantee is only to drop the transport as well; deciding more needs a statement about which later calls a user makes, i.e. schedules outside the code",
 'C29': "the code has no limit or timeout of its own (read_line until CRLF, unbounded String); boundedness would depend on the caller's stream, a runtime quantity no static argument over this code can bound",
 'C30': "depends on the sizes of kernel and peer buffers at run time; no source-level fact bounds them, and the code deliberately writes the whole group first",
}
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i,
                           technique=T[i], level='proof', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'its check is not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
