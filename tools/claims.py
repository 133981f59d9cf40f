VF="value-flow summaries (gated SSA, loops as closed forms, maps or coinductively matched recurrences) compared in normal form with reference definitions"
S="Holds for all inputs under the listed assumptions; sound up to floating-point re-association (values are compared as exact real expressions) and the correctness of the analyser itself. Anything the analyser cannot decide is reported as a violation."
VFA="the amd64 assembly is rewritten instruction by instruction into Go, and its value-flow summary or memory obligations are decided like those of Go code"
SA="Holds for all inputs, slice lengths, alignments and feature flags under the listed assumptions; trusts the Go assembler's listing and the analyser's instruction semantics. Anything the analyser cannot decide is reported as a violation."
SB="Decided exactly from the current sources for the listed architectures and platforms; trusts the Go assembler's listing and the Go type checker."
VFW="value-flow summaries with library and network calls as uninterpreted functions and a recorded transcript (effect trace, sticky writer errors, string theory for splitting and trimming), compared with reference definitions"
SV="Holds for all command lines, device answers and failures under the listed assumptions; bounded to two listed devices, a connection of two lines and a stream of two device buffers (two packets and a part, then one packet) or 270 short ones. The device library is represented by its declarations (it is not installed here). Anything the analyser cannot decide is reported as a violation."
CLAIMS={
"C02":(VF,S),
"C03":(VF,S),
"C04":(VF,S),
"C07":(VF,S),
"C08":(VF,S),
"C09":(VF,S),
"C10":(VF,S),
"C12":(VF,S),
"C13":(VF,S),
"C14":(VF,S),
"C15":(VF,S),
"C16":(VF,S),
"C23":(VF,S),
"C17":(VF,S),
"C18":(VF,S),
"C30":(VF,S),
"C29":(VF,S),
"C28":(VF,S),
"C27":(VF,S),
"C26":(VF,S),
"C25":(VF,S),
"C24":(VF,S),
"C01":(VFA,SA),
"C05":("dataflow over the assembled instruction listing of every architecture (argument cells, must-stored results, caller's registers) and value-flow obligations of the amd64 routines rewritten in Go",SA),
"C06":("declaration-to-assembly matrix, argument-cell lint over the assembled listings of four architectures, type checking on 15 platforms",SB),
"C42":("control-flow and argument-effect query over the assembled stubs, with value-flow comparison where names differ",SB),
"C11":(VF,S),
"C31":(VFW,S),
"C32":(VFW,S),
"C33":(VFW,S),
"C34":(VFW,S),
"C35":(VFW,S),
"C36":(VFW,S),
"C37":(VFW+"; answers of the device arbitrary",SV),
"C38":("value-flow summaries of claiming, selecting and releasing; must- and may-held lock dataflow; typestate of the session over all paths of the connection handler",SV),
"C39":(VFW+"; non-blocking channel model, the device's callback driven by the analysis, lock and session dataflow",SV),
"C40":(VFW+"; both ends of the protocol decided against one definition of the messages",SV),
"C41":("value-flow summaries of the detection code over uninterpreted CPUID/XGETBV answers, compared with the architectural bit table; register and cell dataflow of the two assembly routines",SA),
"C19":(VF,S),
"C20":(VF,S),
"C21":(VF,S),
"C22":(VF,S),
}
NA={}
