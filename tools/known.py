"""Writes /verif/known_findings.json: the genuine defects that are recorded, and those that were repaired."""
import json, os, subprocess

FINDINGS = [
    dict(property="C06", what="a guard that fails after names were bound inside a pattern passes the first bound value on to the next arms instead of the matched value (unit test test_guard_bind pins the bytecode)",
         program="match [1, 2] {\n\t[let x, let y] if false { echo 1; }\n\t[*, *] { echo 'list'; }\n\t* { echo 'other'; }\n}\n",
         expected=dict(status=0, out="list\n")),
    dict(property="C06", what="when the guard of a match's last arm fails, the value stays on the stack, so variables declared after the match are misread (unit test test_guard_simple pins the bytecode)",
         program="fn f(x) {\n\tmatch x {\n\t\t* if false { echo 1; }\n\t}\n\tlet y = 5\n\tlet z = 6\n\techo y\n\techo z\n\treturn y\n}\necho f(2)\n",
         expected=dict(status=0, out="5\n6\n5\n")),
    dict(property="C17", what="an error in a function that spans lines and is called inside a comprehension is reported a line too far",
         program="let a = [1]\nlet b = [(fn(x) {\n\treturn x + 'a'\n})(i) for i <- a]\n",
         expected=dict(status=5, out="", err="(line 3)")),
    dict(property="C17", what="a call in the third clause of a for loop of a function that spans lines is reported on the line where the function ends",
         program="for let i = 0; i < 2; i = (fn() {\n\n\treturn i + 'a'\n})() {\n\techo i\n}\n",
         expected=dict(status=5, out="0\n", err="call on line 1")),
    dict(property="C19", what="releasing data nested a million levels deep overflows the C stack",
         program="let x = []\nfor let i = 0; i < 1000000; i += 1 {\n\tx = [x]\n}\nx = undef\necho 'done'\n",
         expected=dict(status=0, out="done\n")),
]

# commit subject (after "fix: ") -> property
FIXED = """
C14 bound the loop frames of for-in loops
C08 keep tables consistent after removals
C09 keep sets consistent after removals
C19 count a pushed value before releasing the slot it goes to
C01 don't trap when dividing the smallest int by -1
C02 fold ===, !== and ! of floats to what the VM computes
C05 only expand the results of the call in the variadic position
C03 keep the stack balanced over break and continue
C04 close upvalues when the variables they refer to go away
C26 address all 255 locals
C10 slice strs whose range is empty, and substrings that aren't copies
C10 end str.count and the trims for empty and all-trimmed strs
C10 count replacements, not positions, against the limit of str.replace
C10 don't read the first char of an empty str in str.tofloat
C16 give every type an entry in the table of builtin metatables
C06 skip the value pattern of a missing key in table patterns
C08 give tables made by table.copy their methods
C19 release the list's reference to a popped item
C21 end the REPL at the end of its input
C22 free the constants of what was run before on the same state
C22 read a global that never got its value as undef
C22 leave the scope of a script that doesn't parse
C22 keep the code of earlier runs while its functions are around
C20 leave the stacks as they were before a run
C23 write all of a str to a file, not only up to its first NUL
C23 don't use a file after it's closed
C20 run the function in YASL_functioncall, and count what it returns
C20 pop in YASL_popbool, YASL_popfloat and YASL_popint whatever the type
C20 pop the undef that YASL_setmt removes a metatable with
C16 run the overloads of == for the elements of lists and tables
C13 compare ints as ints when sorting
C05 count the targets and values of multiple assignments
C16 wait for __get when looking up a method
C16 call the __call of the value that is called
C19 don't leak the operands of a comparison that isn't supported
C03 drop the value of a statement that starts with a fn expression
C03 pop the value of a for loop's post expression once
C10 keep the end of a str that is split by a longer separator
C11 newlines in literals are skipped only where there is one
C03 break and continue are allowed in loops that are never entered
C17 report the right line after lookahead and member access
C02 -0.0 and 0.0 are different constants
C12 -0.0 and 0.0 are the same key
C17 report the right line in a callee that spans lines
C17 report the right line in interpolated strings and calls that expand
C17 don't report a call whose arguments are being evaluated as in progress
C26 delete the nodes of long programs without recursion
C18 report programs that are nested too deeply instead of overflowing the C stack
C18 reject calls in parentheses as names of members
C18 name unknown tokens in error messages without reading past the names
C18 end at the end of the source in an interpolated str in a pattern
C11 refuse more than an expression in an interpolated str
C20 copy the names of globals and metatables that the host sets
C20 peeknuserdata is NULL for values that aren't userdata
C20 define the functions for userdata and userptrs that yasl.h declares
C17 name the type of the argument that's wrong
C20 document that registermt pops
C20 run programs above the values the host has on the stack
C29 fill in missing arguments of variadic C functions
C20 leave the stack as it is when printing an error
C19 release what was built so far when turning values into text fails
C28 YASL_compile releases the code it doesn't run
C21 scripts run from memory know __VERSION__ too
C28 -C accepts scripts that use args
C22 forget the declarations of a REPL input that it didn't get to
C18 read pipes, directories and files that can't be read without crashing
C24 math.max and math.min compare ints as ints, and check all of their arguments
C24 math.abs(-0.0) is 0.0
C24 math.lcm doesn't overflow unless its result does
C24 no negative number is prime
C25 a required module doesn't undo changes to the libraries, and one that fails leaves nothing behind
C25 modules that require each other run out of depth, not of the stack
C26 calls that give values to more than 127 variables
C14 comprehensions work with temporaries on the stack
C06 a match without a pattern that matches drops its value
C01 int powers that fit an int are exact
C04 reject the name of a type as a key in table patterns
""".strip().splitlines()


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = {}
    for l in FIXED:
        p, s = l.split(" ", 1)
        props[s] = p
    fixed = []
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            s = s[5:]
            fixed.append(f"fixed: property={props.pop(s)} {h} {s}")
    assert not props, props
    with open(os.path.join(here, "known_findings.json"), "w") as f:
        json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
        f.write("\n")


main()
