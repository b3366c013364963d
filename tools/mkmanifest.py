"""writes MANIFEST.json from the table of checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification of the LIR machine; TLC trace validation of generated code run on every backend"
CHECKS = {
 "C01": (TV + "; word algebra model checked exhaustively on small words", "model_checking",
         "every distinct observation of thousands of random and boundary-immediate programs on 14 backends and other processor revisions is validated; the input space is sampled, the laws of the algebra are exhaustive for small words"),
 "C02": (TV + "; flag laws of the word algebra model checked exhaustively on small words", "model_checking",
         "every flag producing operation x flag x operand form x destination kind with edge operands, and random producer / consumer sequences, on 14 backends and other processor revisions; operand values are sampled"),
 "C03": (TV, "model_checking",
         "random programs over every addressing form, offset class, size, alignment class and update form (where supported) on 14 backends and other processor revisions, the final contents of all changed memory compared byte by byte; addresses are sampled"),
 "C04": (TV, "model_checking",
         "random programs mixing every kind of instruction on functions with every number of registers the backend has and locals up to 40 KB; all registers are compared after each instruction and locals at the end, on 14 backends and other processor revisions; the set of programs is sampled"),
 "C05": (TV + "; layout predicate over the reported label addresses", "model_checking",
         "random control flow graphs with every jump kind, jump tables, nested fast calls and aligned labels, and every jump kind at every distance around each encoding limit up to 128 KB (quick) / 4 MB (thorough) in both directions, on 14 backends and other processor revisions"),
 "C06": (TV + "; C caller and callee stubs and register state compared across calls", "model_checking",
         "random call trees over every argument signature, calling convention (C, register argument, tail, kept registers), frame size, set_context and return form on 14 backends and other processor revisions, called from and calling C code, stack alignment and callee saved state checked; the set of programs is sampled"),
 "C07": (TV + "; float operators model checked on every pair of values of a 7 bit format", "model_checking",
         "random programs over every float operation, conversion, comparison, select, copy and memory form on 14 backends and other processor revisions with edge and random values, results compared bit by bit (NaN payloads excluded); values are sampled"),
 "C08": (TV, "model_checking",
         "random programs over every vector operation, register size, element size, lane, alignment and memory form on the 8 backends with vectors (x86 with and without VEX and 256 bit registers, ARM register pairs), flags and other registers compared, operands next to inaccessible memory; the support query is compared with the emission; values are sampled"),
 "C09": (TV + "; atomicity model refined by models of the two implementation schemes (TLC); TLC validation of histories recorded from threads", "model_checking",
         "random single threaded programs over every operation, register assignment and mode with determined success or failure on the 12 backends which have the instructions (and ARM-64 with LSE), and histories of four threads updating adjacent cells beside plain stores (on x86 in parallel on the processor, elsewhere emulated); schedules are sampled"),
 "C11": (TV + "; serialization and restoring between the calls of every program", "model_checking",
         "random programs mixing every kind of instruction, serialized and restored at random points of their emission, with and without debug information, compared with the specification of the unserialized program; truncated and foreign buffers, failed compilers; the set of programs is sampled"),
 "C10": (TV + "; modifications as actions of the specification", "model_checking",
         "random loops whose constants, rewritable jumps, calls and fast calls of every kind and tables are modified between the iterations, to targets inside the code, in C and in code placed near, far and low in memory; normal and dual mapped (written at one address, run at another) code; 14 backends; histories are sampled"),
 "C13": ("TLA+ model of compiler sessions and memory ownership (all states checked by TLC), and TLC validation of recorded sessions with injected allocation failures", "model_checking",
         "the design model is exhaustive for two compilers and three blocks; recorded sessions inject failures at every request (sampled above ten per session) of mixed programs, with and without serialization, caller supplied buffers and user reported errors, on 14 backends and other processor revisions and the three executable allocators"),
 "C12": ("TLA+ model of executable memory; model of the boundary-tag algorithm shown to refine it by TLC; TLC validation of recorded allocator histories", "model_checking",
         "the algorithm model is exhaustive for small chunks, three blocks and two chunks (two threads: two blocks); the three allocators (64 and 32 bit) run every history of five requests over three sizes, random histories with huge sizes, failing system calls, generated, executed and patched code, and histories of up to eight threads; mappings, access rights and contents are observed"),
 "C14": ("TLA+ model of the stack; model of the implementation shown to refine it by TLC; TLC validation of recorded histories", "model_checking",
         "the implementation model is exhaustive for small stacks; random histories of up to 60 stacks with valid and invalid sizes, resizes beyond every limit, failing requests, released pages losing their contents at once; both implementations, 64 and 32 bit; histories are sampled"),
 "C16": ("TLA+ denotational specification of the pattern language (parser, matches, identifiers); TLC trace validation of recorded compilations and matches", "model_checking",
         "random patterns over the whole syntax (valid and invalid), every flag combination, inputs derived from the pattern fed in random pieces, results compared after every piece, on 14 backends and other processor revisions; allocation failures injected at every request, leaks observed; patterns and inputs are sampled"),
 "C17": (TV + "; predicates over the reported size, addresses and the bytes of a caller supplied buffer", "model_checking",
         "programs mixing every kind of instruction generated into caller supplied buffers of every relevant size (binary search of the smallest accepted one) between guard bytes, single and dual mapped, run after everything behind the reported size was destroyed; reported addresses inside the code; 14 backends; programs are sampled"),
 "C18": (TV + "; interleaved and concurrent compilation", "model_checking",
         "six programs at a time compiled call by call in random interleavings, and in six threads with compilers created and freed beside them; every program validated against the specification of that program alone; schedules are sampled"),
 "C19": ("TLA+ specification of the queries (Query.tla) and trace validation with TLC of recorded answers, test requests and real requests on 30 processors and instruction set revisions; hand encoded instructions validated with Lir.tla", "model_checking",
         "about 130000 requests (vector, update, atomic) sampled from the product of operation, register size, element, alignment, operand and option; the answers of all features and comparisons compared with the facts known about every processor; emulated features are only checked for their range"),
 "C15": ("TLA+ specification of valid calls (Calls.tla, with the state of the compiler on which validity depends); TLC validation of recorded call sequences; generated code compared with a build without the checks", "model_checking",
         "6000 random sequences per processor (20 processors and revisions), each with zero or one invalid argument in any call; accepted / rejected, the error state, the growth of the code and the generated code; calls whose validity the documentation leaves open are not judged; arguments are sampled, pointers are not varied"),
}
NA = {}
def main():
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    ch, na = [], []
    for i in ids:
        if i in CHECKS and os.path.exists(V + "/checks/%s.py" % i.lower()):
            t, lv, note = CHECKS[i]
            c = "python3 checks/%s.py" % i.lower()
            ch.append(dict(property=i, quick_cmd=c, thorough_cmd="env VERIF_TIER=thorough " + c, technique=t, level=lv, level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    json.dump(dict(version=1, setup_cmd="true", checks=ch, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
main()
