import json
LANG="trusts the reference interpreter (harness/interp.go, written from the documented semantics, independent of the compiler) and gcc/glibc; explored programs stay inside the defined language (no division by zero, shift counts 0..63, printf formats matching their arguments)"
T={}
def t(id,tech,note): T[id]=(tech,note)
diff="generated programs, differential against a reference interpreter"
t("C01",diff,"Random search over typed expression programs with extreme operands; "+LANG)
t("C02",diff,"Random search over nested control flow with printed traces; "+LANG)
t("C03",diff,"Random search over call shapes, overload sets and recursion; "+LANG)
t("C04",diff,"Random search over closure nestings and capture histories; "+LANG)
t("C05",diff,"Random search over declarations and aliasing write histories with full dumps; "+LANG)
t("C06",diff,"Random search over generic declarations and instantiations; "+LANG)
t("C07","generated allocation histories on a checking, poisoning allocator, differential against a reference interpreter","Every allocation collects; a preloaded allocator poisons freed blocks, detects double/invalid frees and writes to freed blocks, and output must equal the reference; "+LANG)
t("C08","generated garbage-producing loops, metamorphic relation on live block counts","Peak live blocks after 8 and after 40 iterations must agree up to a constant; trusts the recording allocator")
t("C09","generated access forms and sampled indexes against an in-range predicate and a heap check","Each program is run for many indexes; oracle: bounds predicate, panic message and status, no output after, block contents unchanged outside the access")
t("C10","generated string histories against a byte-string model","Model: Go byte slices; "+LANG)
t("C11","sampled ints against exact formatting, round trip through literals","Model: Go strconv/big; all boundary classes of the 63-bit range are sampled, not enumerated")
t("C12","stateful generation of bytes/buffer histories against a byte-slice model","Model-based histories; "+LANG)
t("C13","stateful generation of map histories against a reference map","Model-based histories over int, string, struct and enum keys and colliding hashers; order of foreach is not compared")
t("C14","stateful generation of list/option/result histories against reference definitions","Model-based histories with tracing callbacks; "+LANG)
t("C15","grammar-based and mutation fuzzing of the compiler","Oracle: exit status and diagnostics of the compiler, no Go panic, no assembler or linker error, CPU limit for termination")
t("C16","generated valid programs with one injected static mistake","Oracle: the compiler must reject, and write no executable; trusts the mistake catalogue")
t("C17","generated valid programs with one injected mistake at a known line","Oracle: file and line of the first diagnostic; trusts the catalogue's line attribution (mistakes whose line is ambiguous are left out)")
t("C18","metamorphic testing: generated programs and equivalent rewrites","Oracle: all variants behave as the reference interpreter says")
t("C19","generated inputs against a reference lexer and token-list round trip","Drives lex.Lexer in process through a small driver built against /repo; the reference lexer is in harness/props_lex.go")
t("C20","stateful generation of file histories with injected errors against a model of files","Files live in a scratch directory; errors injected by missing, looping, overlong and non-directory paths, bad descriptors, pipes")
t("C21","generated argument vectors and environments, round trip","Oracle: byte equality with what was passed to exec")
t("C22","generated programs, valid and mistaken, differential between compilations with and without diagnostic options","Oracle: same status, same errors, executable behaves as the reference interpreter says; with --gc.debug the program's output must be contained in order and the status equal")
t("C23","generated programs over external C functions, differential against a reference interpreter","C functions in harness/c/probe.c are linked through a copy of the install directory and modelled in harness/props_cli.go; "+LANG)
t("C24","generated time values against 63-bit arithmetic, clock readings bracketed by the host's","Trusts that the clock is not set back during a run (such runs are skipped)")
t("C25","generated programs with exit, panic and assert at random places, differential against a reference interpreter",LANG)
t("C26","generated sets of programs compiled under generated schedules, differential against a reference interpreter","Overlaps are those the operating system happens to produce for compilers started together; "+LANG)
t("C27","generated programs with sampled sizes (around powers of two) along some thirty dimensions, expected output known by construction","Sizes up to a few thousand for source dimensions and 200000 for data; runs that exceed the CPU limit are not counted")
t("C28","small edits of valid programs, decided by a reference recogniser of the grammar","Trusts the recogniser and the reference lexer (harness/props_syntax.go, props_lex.go), written from the documented grammar; texts the lexer property leaves open are not judged")
checks=[]
for l in open('properties.jsonl'):
    i=json.loads(l)['id']
    if i in T:
        checks.append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",technique=T[i][0],level="exploration",level_note=T[i][1]))
m=dict(version=1,setup_cmd="bash run.sh setup",checks=checks,not_applicable=[],
 notes="All checks are black-box: they build clarac from /repo's working tree, generate Clara programs or other inputs, and compare what happens with an oracle. No hooks in /repo. Defects found and repaired: KNOWN_FINDINGS.txt. A failing check writes a minimal reproduction to evidence/replays; 'bash run.sh replay FILE' runs it again.")
open('MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
