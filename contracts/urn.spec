# Contract of Machine.Parse: what each parsing mode accepts, where the pieces are, and
# which error a rejected text gets.
#
#   accept = regular expression; <t> marks a position. & is intersection, ~ complement.
#   error "text" k = pattern; the column %d is k + the index of the offending symbol; the pattern is
#   matched against the longest viable prefix (the longest prefix of the input that some accepted
#   text starts with) followed by the offending symbol: the next byte, or $ when the input ends.
#   The first matching rule counts. . is any byte, _ any byte or $.

let alnum = [0-9A-Za-z];
let sss   = alnum | [()+,\-.:=@;$_!*'];
let hex   = "%" alnum alnum;
let pchar = sss | [~&] | hex;
let urn   = [uU][rR][nN];

let noprefix = ([uU] ([rR] [nN]?)?)? _;

mode RFC2141Only;
accept = <pre0> urn <pre1> ":" <id0> (alnum (alnum | "-"){0,31} & ~urn) <id1> ":" <ss0> (sss | hex)+ <ss1>;
error "expecting the prefix to be the \"urn\" string (whatever case) [col %d]" 0 = noprefix;
error "expecting the identifier to not contain the \"urn\" reserved string [col %d]" 0 = urn ":" urn ":";
error "expecting the identifier to be string (1..31 alnum chars, also containing dashes but not at its beginning) [col %d]" 0
    = urn ":" (alnum | "-")* _;
error "expecting the percent encoded chars to be well-formed (%alnum{2}) [col %d]" 0 = .* "%" (alnum? _ | alnum alnum .);
error "expecting the specific string to be a string containing alnum, hex, or others ([()+,-.:=@;$_!*']) chars [col %d]" 0 = .* _;

mode RFC7643Only;
accept = <pre0> urn <pre1> ":" <id0> "ietf:params:scim" <id1> ":"
         <ss0> (<ty1> "schemas" | <ty2> "api" | <ty3> "param") <ty> ":" <nm0> alnum+ <nm1> (":" <ot0> (sss | hex)+ <ot1>)? <ss1>;
error "expecting the prefix to be the \"urn\" string (whatever case) [col %d]" 0 = noprefix;
error "expecing the SCIM namespace identifier (ietf:params:scim) [col %d]" 0 = urn ":" "ietf:params:scim"^ _;
error "expecting a correct SCIM type (schemas, api, param) [col %d]" 0 = urn ":ietf:params:scim:" ("schemas" | "api" | "param")^ _;
error "expecting one or more alnum char in the SCIM name part [col %d]" 0 = urn ":ietf:params:scim:" ("schemas" | "api" | "param") ":" alnum* _;
error "expecting a not empty SCIM other part after colon [col %d]" -1 = .* $;
error "expecting a well-formed other SCIM part [col %d]" 0 = .* .;

mode RFC8141Only;
let nid = alnum (alnum | "-"){0,30} alnum & ~(urn "-" [A-Za-z0] .*);
let nss = pchar (pchar | "/")*;
let component = pchar (pchar | [/?])*;
# Within a component "?+" and "?=" are plain text only where no component can start after them:
# a repeated start is an error unless "/" follows, and "?=" ends an r-component if a pchar follows.
let R = component & ~(.* "?+" ([^/] .*)?) & ~(.* "?=" pchar .*);
let Q = component & ~(.* "?=" ([^/] .*)?);
let F = (pchar | [/?])*;
accept = <pre0> urn <pre1> ":" <id0> nid <id1> ":" <ss0> nss <ss1>
         ("?+" <r0> R <r1>)? ("?=" <q0> Q <q1>)? ("#" <f0> F <f1>)?;
viable = urn ":" nid ":" nss ("?+?+" | ("?+" R)? "?=" Q? "?=" | "?+" R? "?+");
let pc = sss | [~&%];
let head = urn ":" [0-9A-Za-z\-]+ ":" [^?#]*;
let inr = head "?+" .* & ~(.* "?=" pchar .*);
error "expecting the prefix to be the \"urn\" string (whatever case) [col %d]" 0 = noprefix;
error "informal URN namespace must be in the form urn-[1-9][0-9] [col %d]" -1 = urn ":" urn "-" [A-Za-z0];
error "expecting the indentifier to be a string with (length 2 to 32 chars) containing alnum (or dashes) not starting or ending with a dash [col %d]" 0 = urn ":" [0-9A-Za-z\-]* _;
error "expecting the percent encoded chars to be well-formed (%alnum{2}) [col %d]" 0 = .* "%" (alnum? _ | alnum alnum .);
error "expecting only one r-component (starting with the ?+ sequence) [col %d]" 0 = (inr & [^#]* "?+" [^#]* "?+") (pc | [?#] | $);
error "expecting only one q-component (starting with the ?= sequence) [col %d]" 0 = (head "?" .* & [^#]* "?=" [^#]* "?=") (pc | [?#] | $);
error "expecting the specific string to contain alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] not in first position) chars [col %d]" 0 = head _;
error "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]" 0 = (inr & ~(.* "#" .*)) _;
error "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]" 0 = head "?" [+=] [^#]* _;
error "expecting a well-formed r-component (starting with ?+), q-component (starting with ?=), or f-component (starting with #) [col %d]" 0 = .* _;

# The RFC 8141 texts that use nothing RFC 2141 does not know: no "/", "~", "&", no component (so no "?" and
# no "#"), and an identifier other than "urn".
mode Plain8141;
accept = <pre0> urn <pre1> ":" <id0> (nid & ~urn) <id1> ":" <ss0> (nss & ~(.* [/~&] .*)) <ss1>;
error "not plain [col %d]" 0 = .* _;
