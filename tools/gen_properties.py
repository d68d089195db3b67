#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
AA='hgaa/services/aauth.py'; PA='hgaa/services/pauth.py'; AC='hgaa/attcert.py'; DB='hgaa/database.py'
NOT_TESTED='No existing test runs the service layer at all (its web framework is not installable here); '

p('C01','Attribute certificates are issued only to authenticated users',
  'An attribute request yields a certificate only if it carries a supported credential type and the name (in any letter case) and password of a user account that existed with that password at some moment while the request was being handled; every other request (wrong, empty, missing or someone else\'s password, unknown user, unsupported credential type) is refused with a fault that carries no certificate and leaves none in the authority\'s archive. When nothing fails, a request with valid credentials for attributes the user holds is answered with a certificate.',
  ['inputs','schedules','histories','fault_sequences'],
  'for every credential presented, every interleaving of concurrent requests with each other and with account changes (password change, account deletion), and every database error or crash during the login',
  NOT_TESTED+'and tests would sample single logins, not logins interleaved with other users\' logins, password changes and failing queries.',
  [AA,'hgaa/schema/aauth.py'],
  [('credential type, user lookup and bcrypt check','hgaa/services/aauth.py:attribute_request')],
  [('aauth_users','accounts and password hashes','hgaa/schema/aauth.py:User')],
  ['attribute_request result or fault','attribute_certificates archive directory'])
p('C02','A certificate carries exactly the requester\'s own requested attributes',
  'The user attributes in an issued certificate are exactly those requested by id or name (all of the user\'s attributes when none, blank or "*" is requested), each with the id, name, type and complete value assigned to that same user in one committed state of the attribute database during the request; values are never another user\'s, stale from an earlier request, truncated or altered. A request naming an attribute the user does not hold is refused and yields no certificate.',
  ['inputs','schedules','histories','fault_sequences'],
  'for every set of assignments (any text values, including non-ASCII), every requested subset, and every interleaving of requests by different users and of administrative changes to the assignments',
  NOT_TESTED+'and cross-user leakage or stale values need particular interleavings or request histories.',
  [AA,AC,'hgaa/schema/aauth.py'],
  [('per-request database session and per-user join','hgaa/services/aauth.py:attribute_request'),('attribute encoding','hgaa/attcert.py:ACAttribute')],
  [('aauth_attribute_assignments','user to attribute value','hgaa/schema/aauth.py:AttributeAssignment')],
  ['bytes of the issued certificate'])
p('C03','A certificate truthfully describes its issue: holder, key, time, connection',
  'Every issued certificate names the authority (uid, name, url, public key) as issuer and the authenticated user with the very public key sent in that request as holder, has an issue time read from the authority\'s clock while handling that request, is valid from the issue time for exactly the configured length, and verifies under the authority\'s published key. Its connection attributes each appear once, describe that same request (client address in any IPv4 or IPv6 notation, key, authentication method, serial, length) and give one moment of that request consistently as GMT calendar fields.',
  ['inputs','schedules','fault_sequences','configurations'],
  'for every client address and key, every interleaving of concurrent requests, every clock skew, jump or tick (second, midnight, month boundary) during a request and every host time zone',
  NOT_TESTED+'and clock boundaries inside a request, time zones and concurrent requests are not sampled by tests.',
  [AA,AC],
  [('certificate construction','hgaa/services/aauth.py:_make_ac'),('connection attribute set','hgaa/services/aauth.py:_make_con_att_set')],
  [], ['bytes of the issued certificate'])
p('C04','Issued certificates and the authority\'s archive always agree',
  'Whenever a request is answered with a certificate, the archive file named by that certificate\'s serial holds exactly the bytes that were returned, and keeps holding exactly them through all later requests, failures and restarts of the service. If the certificate could not be completely archived (disk full, write error, crash) the request fails instead of returning a certificate, and no two answers share a serial.',
  ['schedules','crash_points','fault_sequences','histories'],
  'for every interleaving of concurrent requests, every write, close or read error at any file operation, and a crash of the service at any point',
  NOT_TESTED+'and no test injects disk errors, crashes or concurrency.',
  [AA],
  [('archive write then read back as the response attachment','hgaa/services/aauth.py:_make_ac, attribute_request')],
  [('attribute_certificates directory','one file per issued certificate','hgaa/services/aauth.py:AC_DIR')],
  ['attachment bytes returned','archive directory contents'])
p('C05','No altered certificate content is ever accepted',
  'If the policy authority starts a session on a presented certificate, then everything that certificate states (issuer, holder, serial, issue and validity times, every attribute, delegation rules, extensions) is exactly what its issuer signed, whatever happened to the bytes in transit or storage: flipped, dropped, duplicated, appended or spliced bytes, and whichever supported encoding was used. Unaltered certificates in every supported encoding (raw bytes, base64, base64 with header lines) are accepted.',
  ['inputs','fault_sequences','histories'],
  'for every certificate content (non-ASCII text included), every corruption of its bytes by the network or disk, and every supported export format',
  'The unit tests flip a value in one or two hand-made certificates; they cannot cover every corruption point nor the path through services, archive and network.',
  [AC,PA],
  [('signature over the whole body, re-encoded on verification','hgaa/attcert.py:AttributeCertificate.verify_signature, decode'),('certificate check on session start','hgaa/services/pauth.py:_check_cert')],
  [], ['start_session result or fault','stored session certificates'])
p('C06','Sessions start only on certificates signed by a trusted authority\'s own key',
  'The policy authority starts a session only if every certificate presented was signed with the private key belonging to the public key registered for the authority it names as issuer, and that authority was registered with a positive trust level at some moment during the request. A certificate signed with any other key, by an unregistered authority, or by one whose trust has been withdrawn is always refused, whatever key or name the certificate itself contains.',
  ['inputs','schedules','histories','configurations'],
  'for every presented certificate including forged ones, and every interleaving of session requests with changes of the trust registry (adding, removing, re-keying, changing trust)',
  NOT_TESTED+'and forged certificates are an unbounded input space combined with registry histories.',
  [PA,AC,'hgaa/schema/pauth.py'],
  [('issuer lookup, trust level and key comparison','hgaa/services/pauth.py:_check_cert')],
  [('pauth_attribute_authorities','registered authorities, keys, trust','hgaa/schema/pauth.py:AttributeAuthority')],
  ['start_session result or fault'])
p('C07','Expired or not-yet-valid certificates never start a session',
  'A session is started only if each presented certificate was strictly inside its validity period (after its valid-after second and before its valid-before second) according to the policy authority\'s own clock at some moment during the request. A certificate that is inside its validity period throughout the request is not refused on grounds of time.',
  ['schedules','fault_sequences','inputs'],
  'for every validity period, network delay, clock skew between authorities, clock jump forward or backward, and moment of presentation around both boundaries',
  'The existing tests never check validity times against a clock; skew, delays and jumps need a controlled clock.',
  [AC,PA],
  [('validity check','hgaa/attcert.py:AttributeCertificate.verify_time'),('use on session start','hgaa/services/pauth.py:_check_cert')],
  [], ['start_session result or fault'])
p('C08','A session never outlives its certificates or the maximum session length',
  'A started session begins at the policy authority\'s time of the request, and ends at the earlier of its start plus 86400 seconds and the earliest end of validity among all certificates presented. The answer given to the caller and the stored session state the same start and end, and the stored certificate bounds are the latest issue time and earliest end of validity of the presented set.',
  ['inputs','schedules','fault_sequences'],
  'for every set of certificates in every order, and every clock reading, skew and jump during the request',
  NOT_TESTED+'and the bound must hold for all sets of certificates and clock behaviours.',
  [PA],
  [('running minimum/maximum over the set','hgaa/services/pauth.py:start_session')],
  [('pauth_sessions','sessions with their bounds','hgaa/schema/pauth.py:Session')],
  ['start_session result','pauth_sessions rows'])
p('C09','Starting a session is all-or-nothing',
  'If any certificate in the presented set is unacceptable, or the set is empty, no session starts and nothing about the request is stored. At every instant, including after any database error or crash, the policy authority\'s store contains each session either completely (the session, every certificate it was started with and the links between them) or not at all.',
  ['crash_points','fault_sequences','schedules','inputs'],
  'for every mixed set of good and bad certificates, every failing statement or commit, every crash point and every interleaving of concurrent session requests',
  NOT_TESTED+'and partial states only appear when a failure or crash hits between particular statements.',
  [PA,'hgaa/schema/pauth.py'],
  [('collect first, add everything and commit once','hgaa/services/pauth.py:start_session')],
  [('pauth_* tables','sessions, certificates, links','hgaa/schema/pauth.py')],
  ['database contents after every commit'])
p('C10','An acknowledged session is durable and intact',
  'Once a caller has been told that a session started, the store contains that session with the caller\'s service id and address and, linked to it, exactly the certificates presented, byte for byte in the encoding presented, and still does after any later requests, database errors, crashes and restarts. A request that was not acknowledged has either no effect or its complete effect.',
  ['crash_points','fault_sequences','histories','schedules'],
  'for every crash point, failing commit (with or without effect), lost response, duplicate delivery and later history of requests',
  NOT_TESTED+'and durability is only visible across crashes.',
  [PA,'hgaa/schema/pauth.py'],
  [('commit before the answer is returned','hgaa/services/pauth.py:start_session')],
  [('pauth_* tables','sessions, certificates, links','hgaa/schema/pauth.py')],
  ['start_session result','database contents after restart'])
p('C11','A certificate serial stays bound to the first certificate stored under it',
  'Once the policy authority has stored a certificate under a serial, every later session request presenting a different certificate with the same serial is refused, even when that certificate is otherwise valid and issued by a trusted authority, and the stored certificate and its recorded digest (SHA-256 of the presented bytes) never change. Presenting the identical certificate again is accepted and starts a further session on it.',
  ['histories','schedules','inputs'],
  'for every history of session requests with repeated, identical or colliding serials in every encoding, sequential or concurrent',
  NOT_TESTED+'and it is a property of request histories.',
  [PA,'hgaa/schema/pauth.py'],
  [('hash comparison with the stored certificate','hgaa/services/pauth.py:start_session')],
  [('pauth_attribute_certificates','serial, bytes, hash','hgaa/schema/pauth.py:AttributeCertificate')],
  ['start_session result or fault','pauth_attribute_certificates rows'])
p('C12','Session identifiers are unguessable and sessions never mix',
  'Every started session has its own identifier of 160 bits taken from the system\'s cryptographic randomness during that very request, and the identifier answered is the one stored. Concurrent, repeated, failed and duplicated requests never share, reuse or overwrite a session or attach certificates to another request\'s session, even if the random source were to repeat a value, in which case the later request fails.',
  ['schedules','histories','fault_sequences'],
  'for every interleaving and duplication of session requests, every random output (including repeats) and every restart',
  NOT_TESTED+'and it needs concurrent histories and a controlled random source.',
  [PA],
  [('random identifier as primary key','hgaa/services/pauth.py:start_session')],
  [('pauth_sessions.id','base64 of the little-endian identifier','hgaa/schema/pauth.py:Session')],
  ['start_session result','database contents'])
p('C13','Published authority information is a faithful current snapshot',
  'The policy authority\'s list of attribute authorities contains exactly the registered authorities, each once with its registered name, uid, url, key, key algorithm and trust level, as they were in one committed state during the request. The information each service publishes about itself (ids, urls, versions, credential types, key and algorithms) is the same before and after any failures, and the key an attribute authority publishes is the one that verifies its certificates.',
  ['schedules','histories','configurations','fault_sequences'],
  'for every history of registry changes interleaved with requests, failures and restarts, and every configuration of names, uids, hosts and ports',
  NOT_TESTED+'and staleness only shows in histories of changes, restarts and requests.',
  [AA,PA,'hgaa/config.py'],
  [('query per request','hgaa/services/pauth.py:trusted_attribute_authorities'),('configuration read at start','hgaa/services/aauth.py:info, hgaa/services/pauth.py:info')],
  [('pauth_attribute_authorities','registered authorities','hgaa/schema/pauth.py:AttributeAuthority')],
  ['info and trusted_attribute_authorities results'])
p('C14','Service recovers: once failures stop, honest requests succeed',
  'After any sequence of refused requests, database and disk errors, lost messages, crashes and restarts, once failures stop every honest user obtains a certificate and starts a session on it within a bounded number of attempts, each answered in bounded time, and without operator intervention. Failed, refused or abandoned requests hold on to no database connection or lock that later requests need.',
  ['fault_sequences','histories','crash_points','schedules'],
  'for every sequence of failures and refused requests of bounded length, followed by a failure-free period',
  NOT_TESTED+'and no test has failures to recover from.',
  [AA,PA,DB],
  [('short-lived database session per request','hgaa/services/aauth.py, hgaa/services/pauth.py'),('engine reuse','hgaa/database.py:get_engine')],
  [], ['results of requests made after the last failure'])
p('C15','Secrets never leave the service',
  'A user\'s or caller\'s plaintext password (correct or mistyped), the password pepper, the authority\'s private key and its passphrase never appear in any log record, fault text, answer, certificate or archive file, in successful and failing requests alike and at every log level.',
  ['histories','fault_sequences','inputs','configurations'],
  'for every request, every error path (including failing database and disk operations) and every log level',
  NOT_TESTED+'and leaks hide on error paths that only injected failures reach.',
  [AA,PA,'hgaa/log.py','hgaa/tools.py','hgaa/clients/aauth.py'],
  [('log calls mention names and addresses only','hgaa/services/aauth.py, hgaa/clients/aauth.py')],
  [], ['all log records, responses, faults and files written'])
p('C16','Clients report success only for an acknowledged request and keep its key',
  'The client library returns a result for an attribute, info or authority-list request only if the service answered that request successfully; a fault, an error status, a lost or broken answer always surfaces as an exception. After a successful attribute request the client\'s remembered key is the private key matching the key in the returned certificate, and after a failed one it is unchanged.',
  ['fault_sequences','histories','schedules'],
  'for every loss, delay, duplication, error status and service failure at any point of a sequence of client calls',
  'The client tests need a live server and are not run; they check nothing under failures.',
  ['hgaa/clients/aauth.py','hgaa/clients/pauth.py'],
  [('status and fault checks, key remembered last','hgaa/clients/aauth.py:attribute_request'),('status checks','hgaa/clients/aauth.py:info, hgaa/clients/pauth.py')],
  [('last_key','session key of the last certificate','hgaa/clients/aauth.py')],
  ['client return values, exceptions and remembered key'])
p('C17','Each service serves and uses only what it is configured for',
  'The attribute authority reads users and attributes only from its own configured database and the policy authority reads and stores authorities, certificates and sessions only in its own, whether the two are configured to share a database or not, also after restarts; neither ever writes into the other\'s. Exactly the services enabled in the configuration answer requests.',
  ['configurations','histories','crash_points'],
  'for every split or shared database configuration, enabled subset of services, and history of requests and restarts',
  NOT_TESTED+'and the deployment configuration space is not sampled by tests.',
  [DB,PA,AA,'hgaa/handler.py','hgaa/config.py'],
  [('engine per service name','hgaa/database.py:get_engine'),('enabled services only','hgaa/handler.py')],
  [('ACTIVE_ENGINES','engine cache','hgaa/database.py')],
  ['contents of both databases','reachability of service methods'])
p('C18','Database provisioning is safe to interrupt and repeat',
  'Building the databases never loses existing rows and, if interrupted by an error or crash at any point, completes when repeated. Populating a database (or generating attributes) adds all of the given rows or none of them: after any error or crash the rows present are the old ones or the old ones plus all given ones (when wiping first: the old ones, none at all, or exactly the given ones). Repeating the command after a failure succeeds, unless it is refused because the given rows are already all there.',
  ['crash_points','fault_sequences','histories'],
  'for every failing statement or commit and crash point of build, populate and attribute generation, and every order of repeating them',
  'The provisioning code has no tests; partial states need a failure at a particular statement.',
  [DB,'hgaa/tools.py','hgaa/schema/aauth.py','hgaa/schema/pauth.py'],
  [('single commit for all instances','hgaa/database.py:populate_db'),('create only missing tables','hgaa/tools.py:build_database'),('single commit','hgaa/tools.py:gen_atts')],
  [], ['database contents'])
p('C19','Generating the authority key never leaves the authority without a key',
  'If key generation reports success, the key file holds a new complete key that can be loaded with the given passphrase and not without it. If it is interrupted by a disk error or crash at any point, the key file still holds the previous key completely (or is still absent if there was none), or already the complete new one, never a partial key, even if only data forced to disk survives; repeating the command then succeeds.',
  ['crash_points','fault_sequences'],
  'for every write, close or rename error and every crash point of key generation, with and without a previous key',
  'Key generation has no test; truncation needs a failure between opening and closing the file.',
  ['hgaa/tools.py'],
  [('encrypted export written to the key file','hgaa/tools.py:gen_aauth_key')],
  [('key file','encrypted private key','configuration KEY_FILE')],
  ['key file contents'])
p('C20','A policy decision depends only on the policy and the given attributes',
  'Evaluating a policy against a set of attributes gives the decision defined by the language (three-valued AND/OR/NOT; comparison, IN and SUBSET on the attribute values; an attribute that is missing, has no value or a value of the wrong type makes its comparison UNDEF and so never by itself grants), and exactly the warnings of that evaluation. It is the same whether the policy was evaluated before against other attributes, by the same or another evaluator, before or after failed evaluations, and while other threads parse and evaluate other policies.',
  ['histories','schedules','inputs'],
  'for every history of evaluations of shared parsed policies one after another against changing attributes, and every interleaving with threads working on separately parsed policies',
  'The tests evaluate each freshly parsed policy once, alone, against one attribute table; carry-over between evaluations and threads is not reachable that way.',
  ['hgpl/interpreting.py','hgpl/ast.py','hgpl/symbols.py'],
  [('recursive evaluation storing results on nodes','hgpl/interpreting.py:Interpreter'),('three-valued logic','hgpl/ast.py:ASTResult'),('symbol lookup','hgpl/symbols.py')],
  [('node result','value left on each tree node by an evaluation','hgpl/ast.py:ASTNode.result')],
  ['Interpreter.evaluate result and warnings'])
p('C21','A stored policy means the same after reload as before storing',
  'A parsed policy that is encoded, stored and decoded again, in the same or a restarted process, raw or in base64, is equal to the original and gives the same decision for every set of attributes. Encoding does not depend on how many policies the process has handled before or on other threads parsing, encoding or decoding at the same time.',
  ['histories','schedules','crash_points','inputs'],
  'for every policy, every amount of work done earlier in the process, every restart between storing and loading, and every interleaving of concurrent parsing, encoding and decoding',
  'The tests encode and decode nine policies early in one process on one thread; exhausted counters and races between threads are out of their reach.',
  ['hgpl/ast.py'],
  [('node numbering and binary encoding','hgpl/ast.py:ASTEncoder, ASTNode')],
  [('node ids','process-wide counter','hgpl/ast.py:ASTNode._last_id'),('pauth_policies.ast','stored encoded policy','hgaa/schema/pauth.py:Policy')],
  ['decoded tree and its decisions'])
p('C22','Concurrent policy compilation is isolated',
  'Lexing, parsing and type-checking a well-formed policy yields the tree, attribute list, issues and inferred attribute types that belong to that policy text alone. They are the same whatever other policies (valid or failing) were compiled before, and while other threads compile other policies.',
  ['schedules','histories','inputs'],
  'for every history of earlier compilations and every interleaving of compilations of different policies in several threads',
  'The tests compile policies one at a time in one thread and never after failing ones.',
  ['hgpl/lexing.py','hgpl/parsing.py','hgpl/semantics.py','hgpl/symbols.py','hgpl/errors.py'],
  [('all state in the lexer, parser and checker instances','hgpl/lexing.py, hgpl/parsing.py, hgpl/semantics.py')],
  [], ['token list, tree, issues, symbol table'])
p('C23','A certificate states the same after export, storage and import',
  'Whatever is put into a certificate with the certificate library (issuer, holder, serial, times, any number of attributes of any type and text, revocation and delegation rules, extensions, signature) is exactly what a reader gets after exporting it in any supported encoding (raw bytes, base64, base64 with header lines), storing or sending it, and importing it in the same or a restarted process; a certificate that does not fit the encoding is refused and never truncated. A certificate made without a serial or times gets a fresh 160-bit random serial, the time it was made, and 86400 seconds of validity. This does not depend on what the process handled before, on failed operations, or on other threads making, signing, exporting or importing other certificates.',
  ['inputs','histories','schedules','crash_points'],
  'for every certificate content and encoding, every history of edits, signatures, exports, imports and failed operations, and every interleaving of threads working on different certificates',
  'The tests round-trip a few hand-made certificates in one thread; shared state, edge lengths in every field and failures in between are not sampled.',
  [AC],
  [('part encoders and decoders consuming a byte array','hgaa/attcert.py:ACPart subclasses'),('body layout','hgaa/attcert.py:AttributeCertificate._encode_body, _decode_body'),('default serial and times','hgaa/attcert.py:ACInformation, ACRevocationRules')],
  [], ['exported bytes','imported certificate fields'])
p('C24','Verification judges exactly the certificate at hand',
  'Verifying a certificate (verify_signature, or importing with verification) succeeds if and only if the signature it carries is its named issuer key\'s signature over everything the certificate states at that moment; changing any field of the object after signing or reading makes it fail until it is signed again, and stored bytes altered in any way never pass. Checking its validity in time answers whether the given moment, or the clock at the time of the call, lies strictly between its bounds. Neither answer depends on certificates verified before, on failed verifications, or on other threads.',
  ['inputs','histories','schedules'],
  'for every certificate, alteration and history of signing, editing and verifying, every clock movement, and every interleaving of threads',
  'The tests verify freshly signed certificates once; stale verdicts after edits, after other certificates or under concurrency need histories.',
  [AC],
  [('signature over the re-encoded body','hgaa/attcert.py:AttributeCertificate.sign, verify_signature'),('strict time bounds','hgaa/attcert.py:AttributeCertificate.verify_time')],
  [], ['verify_signature, verify_time and import_ac results'])
p('N01','Malformed policies are always rejected with a positioned language error',
  'Every text that is not a well-formed policy is rejected by the lexer or parser with a language error giving the position, and never with any other exception or by being accepted.',
  ['inputs'],'for every input text','The tests sample a few malformed texts.',
  ['hgpl/lexing.py','hgpl/parsing.py','hgpl/errors.py'],[('grammar rules','hgpl/parsing.py')])
p('N02','The type checker reports exactly the ill-typed comparisons',
  'For every policy, the type checker reports an error or warning if and only if some comparison is ill-typed by the language rules.',
  ['inputs'],'for every policy','The tests sample a few policies.',
  ['hgpl/semantics.py'],[('per-operator checks','hgpl/semantics.py:TypeChecker')])
p('N03','Policy evaluation requests grant only within a live session',
  'The policy authority answers an evaluation request with a grant only for a known, unexpired session whose certificates are still valid and satisfy the policy.',
  ['inputs','histories','schedules'],'for every session history, policy and clock','The operation is unfinished and has no tests.',
  [PA],[('unfinished evaluate operation','hgaa/services/pauth.py:evaluate')])
p('N04','Text renderings of certificates and trees are complete and unambiguous',
  'The human-readable form of a certificate or policy tree shows every field it contains and nothing else.',
  ['inputs'],'for every certificate and tree','The tests compare a few renderings.',
  [AC,'hgpl/ast.py'],[('string conversions','hgaa/attcert.py:__str__')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
