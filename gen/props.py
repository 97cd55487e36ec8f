import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
M='machine.go'
p('C01','RFC 2141 mode accepts exactly the RFC 2141 language',
 'With the default (RFC 2141) parsing mode an input is accepted if and only if it is "urn" in any case, a colon, a namespace identifier of 1 to 32 letters, digits and dashes not starting with a dash and different from "urn" in any case, a colon, and a non-empty specific string made of letters, digits, ()+,-.:=@;$_!*\' and percent sequences of two alphanumerics. Nothing may precede, interleave or follow, and no other byte value is ever let through.',
 ['inputs'],'every byte string of any length',
 'The table tests pin a few hundred strings; the language is infinite, and the 43 states of the identifier/specific-string automaton times 256 byte values (identifier lengths 1..33, every case variant of urn as identifier or identifier prefix) are sampled at a handful of points.',
 ['machine.go','machine.go.rl','urn.go'],[('states 1..43 of the generated machine','machine.go:(*machine).Parse'),('end-of-input acceptance test','machine.go:(*machine).Parse (final-state comparison)')],['Parse(input)','Machine.Parse'],
 [('current state','position in the grammar','machine.cs')])
p('C02','RFC 8141 mode accepts exactly the documented RFC 8141 language',
 'With the RFC 8141 parsing mode an input is accepted if and only if it is "urn" in any case, a colon, a 2 to 32 character identifier of alphanumerics and dashes that neither starts nor ends with a dash and is not an informal identifier "urn-" followed by anything but a digit from 1 to 9 or a dash, a colon, a specific string of pchars and slashes starting with a pchar, then optionally one r-component ("?+"), one q-component ("?=") in this order, and a fragment ("#"), each with the RFC 8141 alphabet. At most one r- and one q-component are let through, both non-empty and starting with a pchar; a second start of the same component counts as plain text only directly before a slash.',
 ['inputs'],'every byte string of any length',
 'Tests hold some valid and invalid samples; combinations of components, separators occurring inside components ("?" before "=", "+", "#", end of input), percent sequences at every place and identifier lengths are an infinite set.',
 ['machine.go','machine.go.rl','urn8141.go'],[('states 83..171, 177..192 of the generated machine','machine.go:(*machine).Parse'),('only-once flags of the components','machine.go actions mark_r_start, mark_q_start')],['Parse(input, WithParsingMode(RFC8141Only))'])
p('C03','SCIM mode accepts exactly the RFC 7643 SCIM URN language',
 'With the RFC 7643 parsing mode an input is accepted if and only if it is "urn" in any case followed by exactly ":ietf:params:scim:", one of "schemas", "api", "param", a colon, a non-empty alphanumeric name, and optionally a colon followed by a non-empty sequence of RFC 2141 specific-string characters and percent sequences.',
 ['inputs'],'every byte string of any length',
 'Tests use a fixed list of SCIM URNs; near-miss namespaces, types, names and other-parts at every position and of every length cannot be listed.',
 ['machine.go','machine.go.rl','scim.go'],[('states 44..82, 174..176 of the generated machine','machine.go:(*machine).Parse')],['Parse(input, WithParsingMode(RFC7643Only))'])
p('C04','A parsed URN is exactly the text that was parsed',
 'Whenever an input is accepted, the prefix, identifier, specific string, r-, q- and f-components returned are byte for byte the corresponding pieces of the input with its case preserved, and the reported RFC is the one of the parsing mode. The pieces and their separators cover the whole input, and components that are absent come back empty.',
 ['inputs'],'every accepted byte string of any length, in every parsing mode',
 'The pieces depend on where marks are set while the machine runs, for inputs of unbounded length; tests compare fields for some inputs and mostly not the unexported ones.',
 ['machine.go','machine.go.rl','urn.go'],[('mark/set actions','machine.go:(*machine).Parse'),('(*machine).text','machine.go')],['URN.ID','URN.SS','URN.RComponent()','URN.QComponent()','URN.FComponent()','URN.RFC()','URN.String()'],
 [('mark','start of the current piece','machine.pb')])
p('C05','String() gives back the parsed text and parses to the same URN',
 'For every accepted input the string form of the result is the input itself, up to a trailing "#" with an empty fragment, which is dropped. Parsing the string form again in the same mode succeeds and yields the same URN in every observable respect; a URN built by hand prints as "urn:", identifier, ":", specific string, or as the empty string when either is empty.',
 ['inputs'],'every accepted byte string in every parsing mode; every hand-built URN',
 'A round trip over an infinite language; tests compare the string form for the sample inputs only and never reparse it.',
 ['urn.go','machine.go'],[('(*URN).String','urn.go'),('(*machine).Parse','machine.go')],['URN.String()','Parse'])
p('C06','Normalization lowercases exactly prefix, identifier and percent codes',
 'Normalizing a parsed URN gives the URN with prefix "urn", the identifier in lowercase and the specific string unchanged except that letters inside percent sequences are lowercased; the receiver is not modified and components are dropped. The result parses in the same mode (so it is a valid URN), is lexically equivalent to the original, and normalizing it again changes nothing; the same definition applies to URNs built by hand.',
 ['inputs'],'every accepted byte string in every parsing mode; every hand-built URN',
 'Which letters are lowered depends on positions collected while parsing, for any number of percent sequences anywhere in the text; tests have a few with upper-case hex, none checks idempotence or that the normal form parses.',
 ['urn.go','machine.go','machine.go.rl'],[('list of positions to lower','machine.go action tolower'),('(*machine).lowered','machine.go'),('(*URN).Normalize, normalizeSS','urn.go')],['URN.Normalize()','URN.Normalize().String()'],
 [('positions to lower','offsets of upper-case hex letters','URN.tolower')])
p('C07','Equal is lexical equivalence, an equivalence relation',
 'Two URNs are Equal if and only if their identifiers agree ignoring case and their specific strings agree after lowercasing letters inside percent sequences; prefix case and r-, q-, f-components never matter, and nothing is equal to nil. Equal is reflexive, symmetric and transitive, and changes neither URN.',
 ['inputs'],'every pair and triple of URNs, parsed in any mode or built by hand',
 'A relation over all pairs (and, for transitivity, triples) of values; tests check a table of pairs.',
 ['urn.go','machine.go'],[('(*URN).Equal, (*URN).Normalize','urn.go'),('normalized specific string','machine.go action set_nss')],['URN.Equal'])
p('C08','Every call returns: no panic and no endless loop, on any input',
 'Parsing any byte string (nil and empty included) in any mode returns without panicking and without looping forever; printing, normalizing, comparing, marshalling and the SCIM accessors return without panicking on any parsed, hand-built or zero URN. No index or slice operation ever leaves its bounds.',
 ['inputs'],'every byte string of any length up to the address space; every parsed, hand-built or zero value',
 'Tests show absence of a panic for the inputs they use; the machine moves its cursor back and forth (fhold, fail state) and slices with marks on every path, so bounds and progress need an argument for all paths.',
 ['machine.go','urn.go','urn8141.go','scim.go'],[('cursor, mark and end handling','machine.go:(*machine).Parse'),('nil checks','urn.go, urn8141.go')],['every exported function and method'],
 [('cursor','index of the next byte','machine.p'),('mark','start of the current piece','machine.pb')])
p('C09','Parsing neither writes to the input nor depends on it afterwards',
 'Parsing never writes to the caller\'s buffer, not even temporarily, and everything reachable from the returned URN is a copy: overwriting the buffer, or parsing something else with the same machine, does not change a URN returned before. Formatting, normalizing, comparing and marshalling do not modify their operands either.',
 ['inputs','histories'],'every byte string in every mode; every later write to the buffer or use of the machine',
 'A write that is undone before return, or an alias between result and buffer, is invisible to tests that only look at results; it must be excluded on every path.',
 ['machine.go','urn.go'],[('string conversions and lowered copy','machine.go:(*machine).Parse, (*machine).lowered')],['the caller\'s []byte','URN fields after later calls'])
p('C10','Every parse yields exactly one of a URN and an error',
 'Parsing with a machine returns either a URN and a nil error or no URN and a non-nil error with a message, never both nor neither, and Error() then reports that same error. The package-level Parse returns true with a URN exactly when a fresh machine with the same options accepts, and otherwise false with no URN.',
 ['inputs','configurations'],'every byte string, every parsing mode value (defined or not), any list of mode options',
 'Tests check the pair for their samples; an input on which the machine stops without an error is found only by covering every state and byte.',
 ['machine.go','urn.go','options.go'],[('error actions and end-of-parse test','machine.go:(*machine).Parse'),('Parse','urn.go')],['Machine.Parse','Machine.Error','Parse'])
p('C11','Errors name the broken part and its column',
 'For every rejected input the error text is the documented one for the part of the grammar that is violated (prefix, identifier, reserved identifier, specific string, percent encoding, SCIM namespace, type, name, other, r-, q-, f-component), and its column is the index of the first byte that no valid URN with the same beginning could have there, or the input length when the input is merely cut short. The documented exceptions are fixed: a dangling SCIM colon or percent points one back, an informal identifier points to its dash, a repeated component start points past its two characters, and a byte that cannot follow a percent sequence is reported as a percent-encoding error.',
 ['inputs'],'every rejected byte string of any length, in every parsing mode',
 'Error columns are pinned for sample inputs; the rule relates the column to the longest viable prefix of any input.',
 ['machine.go','machine.go.rl'],[('error actions','machine.go:(*machine).Parse'),('end-of-input actions','machine.go:_eofActions')],['Machine.Parse error','Machine.Error()'])
p('C12','A machine is reusable and only its last mode matters',
 'What a machine returns for an input depends only on the input and the parsing mode set last (by option or by call), never on earlier inputs, errors or modes; with no option, the Default mode or an unknown mode it behaves as in RFC 2141 mode. A URN returned earlier is not affected by later use of the machine.',
 ['histories','configurations'],'every history of Parse and WithParsingMode calls, every list of options, every mode value',
 'Tests reuse a machine for short sequences; leaks of state between calls show only for particular pairs of consecutive inputs or modes.',
 ['machine.go','options.go','parsing_mode.go'],[('initialization in Parse','machine.go:(*machine).Parse'),('WithParsingMode, NewMachine','machine.go, options.go')],['Machine.Parse','Machine.WithParsingMode','NewMachine'])
p('C13','JSON encoding round-trips and decoding is all-or-nothing',
 'Marshalling a parsed URN (with the type matching its mode) gives the JSON string of its string form, and unmarshalling that gives an equal URN with the same string form. Unmarshalling anything else than a JSON string holding a valid URN for that type returns an error and leaves the receiver as it was.',
 ['inputs'],'every accepted byte string per type; every JSON document for decoding',
 'Tests decode and encode a few literals; the round trip and the unchanged receiver on failure must hold for all.',
 ['urn.go','urn8141.go','scim.go'],[('MarshalJSON/UnmarshalJSON','urn.go, urn8141.go, scim.go')],['json.Marshal','json.Unmarshal','URN','URN8141','SCIM'])
p('C14','The SCIM view agrees with the URN it belongs to',
 'A URN parsed in RFC 7643 mode has a SCIM view and is reported as SCIM, any other URN has none; type, name and other part of the view are the pieces of the specific string, so that type ":" name (":" other) is the specific string. The string form of the view is the URN with the prefix in lowercase, it parses to an identical view, and type names and type values convert to each other consistently.',
 ['inputs'],'every byte string in every mode; every type value and type name',
 'The SCIM pieces are cut by position marks of their own (re-used for name and other); tests compare them for a few URNs.',
 ['scim.go','scim/schema/type.go','machine.go','urn.go'],[('scim actions','machine.go:(*machine).Parse'),('(*SCIM).String','scim.go'),('Type.String, TypeFromString','scim/schema/type.go')],['URN.SCIM()','URN.IsSCIM()','SCIM.String()','scimschema.TypeFromString'],
 [('scim position','start of the name or other part','SCIM.pos')])
p('C15','Independent uses do not interfere: no shared mutable state',
 'Calls that share no machine can run at the same time, on the same input bytes and on the same URN values, each giving the result it gives alone: parsing writes only to its machine and to values it creates, and all read operations on URN, URN8141 and SCIM values write nothing that existed before. No package-level variable is written after initialization.',
 ['schedules','inputs'],'every interleaving of any number of goroutines, every input',
 'Race detection on tests sees only the accesses of the executed schedules and inputs; absence of any write to shared memory has to hold on all paths.',
 ['machine.go','urn.go','urn8141.go','scim.go','options.go'],[('write frame of every function','machine.go, urn.go, urn8141.go, scim.go'),('package-level tables','machine.go:_toStateActions, _eofActions')],['concurrent use of Parse, Machine, URN, SCIM'])
p('C16','The parsing modes agree on what a text denotes',
 'Every SCIM URN is also an RFC 2141 URN whose identifier, specific string and normal form spell the same text. A text accepted in both RFC 2141 and RFC 8141 mode gets the same prefix, identifier, specific string and normal form in both, with empty components, so the two results are Equal; an RFC 8141 text containing none of "/", "~", "&", "?" and "#" and not using the reserved identifier is accepted in RFC 2141 mode too.',
 ['inputs','configurations'],'every byte string, every pair of parsing modes',
 'Relates three separately generated parts of the machine on an infinite language; tests run each mode on its own table.',
 ['machine.go','machine.go.rl'],[('entry points main, scim_only, rfc8141_only','machine.go:(*machine).Parse')],['Parse with different WithParsingMode options'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); 
