------------------------------- MODULE Files -------------------------------
(* A file system as far as runs that rewrite files depend on it: names,      *)
(* symbolic links, files with contents, descriptors; and what operations do  *)
(* to it.                                                                    *)
(* A content is named by a tag.  An original is "O1", "O2", ...; what run p  *)
(* makes of the content x is "p(x)", and is complete when all of its bytes   *)
(* are written.  Lens gives the length of each content there can be.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* fs: names (name -> [t, ino, to]), inos (number -> [tag, by, n]), fds (<<run, id>> -> file number),
\*     base (run -> tag of what it read, "" so far), made (name -> run that created it)
RECURSIVE Resolve(_, _, _)
Resolve(names, x, d) == IF d > 0 /\ x \in DOMAIN names /\ names[x].t = "link" THEN Resolve(names, names[x].to, d - 1) ELSE x
Real(fs, x) == Resolve(fs.names, x, 5)
Exists(fs, x) == Real(fs, x) \in DOMAIN fs.names
Ino(fs, x) == fs.names[Real(fs, x)].ino

TagOf(fs, k) == IF k.by = "" THEN k.tag ELSE k.by \o "(" \o fs.base[k.by] \o ")"
Complete(fs, lens, k) == TagOf(fs, k) \in DOMAIN lens /\ k.n = lens[TagOf(fs, k)]
\* what is found at a name: a tag, "partial" or "none"
At(fs, lens, x) == IF ~Exists(fs, x) THEN "none"
                   ELSE LET k == fs.inos[Ino(fs, x)] IN IF Complete(fs, lens, k) THEN TagOf(fs, k) ELSE "partial"

Without(f, x) == [ y \in DOMAIN f \ { x } |-> f[y] ]
With(f, x, v) == (x :> v) @@ f
NewIno(fs) == Cardinality(DOMAIN fs.inos) + 1
Blank(p, n) == [ tag |-> "", by |-> p, n |-> n ]

(* The effect of one operation e = [p, op, id, a, b, flags, rc, size] that succeeded *)
Open(fs, e) ==
  IF e.flags = "r" THEN (IF Exists(fs, e.a) THEN [ fs EXCEPT !.fds = With(@, << e.p, e.id >>, Ino(fs, e.a)) ] ELSE fs)
  ELSE IF Exists(fs, e.a)
       THEN [ fs EXCEPT !.fds = With(@, << e.p, e.id >>, Ino(fs, e.a)),
                        !.inos[Ino(fs, e.a)] = IF e.flags \in { "wt", "t" } THEN Blank(e.p, 0) ELSE @ ]
       ELSE LET x == Real(fs, e.a) i == NewIno(fs) IN
            [ fs EXCEPT !.names = With(@, x, [ t |-> "file", ino |-> i, to |-> "" ]), !.inos = With(@, i, Blank(e.p, 0)),
                        !.fds = With(@, << e.p, e.id >>, i), !.made = With(@, x, e.p) ]
Write(fs, e) == IF << e.p, e.id >> \in DOMAIN fs.fds THEN [ fs EXCEPT !.inos[fs.fds[<< e.p, e.id >>]] = Blank(e.p, e.size) ] ELSE fs
Read(fs, lens, e) ==
  IF fs.base[e.p] # "" \/ << e.p, e.id >> \notin DOMAIN fs.fds THEN fs
  ELSE LET k == fs.inos[fs.fds[<< e.p, e.id >>]] IN
       IF k.by = e.p THEN fs ELSE [ fs EXCEPT !.base[e.p] = IF Complete(fs, lens, k) THEN TagOf(fs, k) ELSE "?" ]
Rename(fs, e) ==
  IF e.a \notin DOMAIN fs.names THEN fs
  ELSE IF e.b \in DOMAIN fs.names /\ fs.names[e.a] = fs.names[e.b] THEN fs      \* two names of one file: nothing happens
  ELSE [ fs EXCEPT !.names = Without(With(@, e.b, fs.names[e.a]), e.a),
                   !.made = IF e.a \in DOMAIN @ THEN Without(With(@, e.b, @[e.a]), e.a) ELSE Without(@, e.b) ]
Unlink(fs, e) == [ fs EXCEPT !.names = Without(@, e.a), !.made = Without(@, e.a) ]
Link(fs, e) == IF ~Exists(fs, e.a) THEN fs
               ELSE [ fs EXCEPT !.names = With(@, e.b, fs.names[Real(fs, e.a)]), !.made = With(@, e.b, e.p) ]
Symlink(fs, e) == [ fs EXCEPT !.names = With(@, e.b, [ t |-> "link", ino |-> 0, to |-> e.a ]), !.made = With(@, e.b, e.p) ]
Truncate(fs, e) == IF Exists(fs, e.a) THEN [ fs EXCEPT !.inos[Ino(fs, e.a)] = Blank(e.p, e.size) ] ELSE fs

Apply(fs, lens, e) ==
  IF e.rc < 0 THEN fs
  ELSE CASE e.op = "open" -> Open(fs, e) [] e.op = "write" -> Write(fs, e) [] e.op = "read" -> Read(fs, lens, e)
         [] e.op = "rename" -> Rename(fs, e) [] e.op = "unlink" -> Unlink(fs, e) [] e.op = "link" -> Link(fs, e)
         [] e.op = "symlink" -> Symlink(fs, e) [] e.op = "truncate" -> Truncate(fs, e)
         [] OTHER -> fs

Fresh(names, tags, lens, runs) ==
  [ names |-> names, inos |-> [ i \in DOMAIN tags |-> [ tag |-> tags[i], by |-> "", n |-> lens[tags[i]] ] ],
    fds |-> << >>, base |-> [ p \in runs |-> "" ], made |-> << >> ]
=============================================================================
