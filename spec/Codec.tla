--------------------------------- MODULE Codec ---------------------------------
(* The text format of serialization, and the outcome of every operation on every class of argument.                  *)
(*                                                                                                                   *)
(* Text is Base-85: groups of five characters hold four bytes, and a last group of n characters holds n - 1 bytes.   *)
(* The bytes are a serialized value which ends with a terminator, or a compressed one which ends with its length.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC

TextLength(bytes) == 5 * (bytes \div 4) + (IF bytes % 4 = 0 THEN 0 ELSE (bytes % 4) + 1)
ByteLength(text) == 4 * (text \div 5) + (IF text % 5 = 0 THEN 0 ELSE (text % 5) - 1)

Encodes == {"value", "foreign", "noname", "unknown"}
Decodes == {"compressed", "plain", "truncated", "alphabet", "noise", "empty", "noname", "unknown"}
Codes == {"text", "wide", "empty", "noname", "unknown", "unencodable"}
Ops == ({"encode"} \X Encodes) \cup ({"decode"} \X Decodes) \cup ({"code"} \X Codes)
\* foreign: a value that cannot be serialized; noname: an empty encoding name; unknown: a name of no encoding;
\* wide: text in an encoding that does not extend ASCII; unencodable: text outside the encoding.
Accepted(op, class) == \/ op = "encode" /\ class = "value"
                       \/ op = "decode" /\ class \in {"compressed", "plain"}
                       \/ op = "code" /\ class \in {"text", "wide"}
=============================================================================
