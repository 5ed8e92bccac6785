---------------------------- MODULE TrackerTrace ----------------------------
(* The library's position tracker in lock step with the printer of Tracker  *)
(* (G02 to G05).  A case is a configuration and a tree of commands: node k  *)
(* was executed after the nodes on the way to it, and o is what the tracker *)
(* answered after it.  Node 0 is the initial state.  Every branch is one    *)
(* program; the trees of the exhaustive part contain every program over an  *)
(* alphabet up to a length.                                                 *)
EXTENDS Tracker, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c,     \* the case
          n,     \* the node
          ps     \* the printer
vars == << c, n, ps >>
Case == Cases[c]
Cfg == Case.cfg
Node == Case.nodes[n]
Init == c \in 1..Len(Cases) /\ n = 0 /\ ps = InitialState(Cases[c].cfg)
Kids == IF n = 0 THEN Case.kids ELSE Node.kids
Next == \E k \in DOMAIN Kids : n' = Kids[k] /\ ps' = ExecFull(Cfg, ps, Case.nodes[Kids[k]].cmd) /\ c' = c
Obs == IF n = 0 THEN Case.o ELSE Node.o

OK_G02 ==
  /\ Obs.x = ps.x /\ Obs.y = ps.y /\ Obs.z = ps.z
  /\ Obs.xn = ps.xn /\ Obs.yn = ps.yn /\ Obs.zn = ps.zn
  /\ Obs.gx = GX(ps) /\ Obs.gy = GY(ps) /\ Obs.gz = GZ(ps)
  /\ Obs.xo = ps.xo /\ Obs.yo = ps.yo /\ Obs.zo = ps.zo
  /\ Obs.xf = ps.xf /\ Obs.yf = ps.yf /\ Obs.zf = ps.zf
  /\ Obs.xh = ps.xh /\ Obs.yh = ps.yh /\ Obs.zh = ps.zh
  /\ Obs.f = ps.f /\ Obs.fn = ps.fn
  /\ Obs.rel = ps.rel /\ Obs.reln = ps.ru
  /\ Obs.def = ps.def /\ Obs.zr = ps.zr /\ Obs.trav = ps.trav /\ Obs.chxy = ps.chxy /\ Obs.ch = ps.ch
OK_G03 ==
  /\ Obs.erel = ps.erel /\ Obs.ereln = ps.eu
  /\ Obs.tool = ps.tool /\ Obs.ne = Cfg.ne
  /\ Len(Obs.ex) = Cfg.ne
  /\ \A k \in 1..Cfg.ne : LET g == Obs.ex[k]  w == ps.ex[k] IN
       /\ g.e = w.e /\ g.eo = w.eo /\ g.er = w.er /\ g.ge = w.e - w.eo
       /\ g.fx = w.fx /\ g.fy = w.fy /\ g.fz = w.fz
OK_G04 ==
  \A k \in 1..Cfg.ne : LET g == Obs.ex[k]  w == ps.ex[k] IN
       /\ g.xl = w.xl /\ g.xt = w.xt /\ g.rl = w.rl /\ g.dl = w.dl
       /\ g.xs = w.xs /\ g.xg = w.xg /\ g.pr = w.pr
       /\ g.rs = w.rs /\ g.rg = w.rg /\ g.rd = w.rd /\ g.prt = w.prt
       /\ g.ds = w.ds /\ g.dg = w.dg /\ g.dd = w.dd
OK_G05 ==
  /\ Obs.leh = ps.leh /\ Obs.lehn = ps.lehn /\ Obs.lay = ps.lay /\ Obs.h = ps.h
  /\ Obs.primed = ps.primed /\ Obs.lc = ps.lc /\ Obs.zhop = ps.zhop
  /\ Obs.hi = ps.hi /\ Obs.hich = ps.hich /\ Obs.hicc = ps.hicc /\ Obs.inb = ps.inb

(* ---------------- laws of the specification itself --------------------- *)
\* what the statements of G02 to G05 say, independently of how Tracker computes it
LAWS ==
  /\ \A k \in 1..Cfg.ne : LET w == ps.ex[k] IN
       /\ w.rl >= 0 /\ w.xl >= 0 /\ w.dl >= 0
       /\ ~(w.xl > 0 /\ w.rl > 0 /\ w.xg)                  \* nothing is extruded before a retraction is paid back
       /\ (w.xg => ~w.rg /\ ~w.prt) /\ (w.xs => w.xg) /\ (w.prt => w.rl > 0) /\ (w.rg => w.rl > 0)
  /\ ps.tool \in 0..Cfg.ne - 1
  /\ ps.lay >= 0 /\ (ps.lc => ps.lay > 0 /\ ps.primed) /\ (ps.lay > 0 => ~ps.lehn) /\ ps.h <= Max2(0, ps.leh)
  /\ (ps.zhop => ps.z >= ps.leh /\ (ps.ch => ~Cur(ps).xg))
  /\ (ps.def => ~ps.xn \/ Cfg.homeNone[1])
  /\ (ps.def => ~ps.ru /\ ~ps.eu /\ Metric(Cfg))
  /\ (ps.eu => \A k \in 1..Cfg.ne : ps.ex[k].e = 0 /\ ps.ex[k].xt = 0)      \* an unknown mode moves nothing
\* the clauses of Next that a statement gives: layer changes by at most one, and only upwards;
\* a tool that is not in use keeps everything but its offsets
LAW_STEP == [][ /\ ps'.lay \in { ps.lay, ps.lay + 1 } /\ ps'.h >= ps.h /\ ps'.leh >= ps.leh
                /\ \A k \in 1..Cfg.ne : (k # ps.tool + 1 /\ k # ps'.tool + 1) =>
                     [ps'.ex[k] EXCEPT !.fx = 0, !.fy = 0, !.fz = 0] = [ps.ex[k] EXCEPT !.fx = 0, !.fy = 0, !.fz = 0]
                /\ (ps'.xn /\ ~ps.xn) => Cfg.homeNone[1]
                /\ (ps'.ru => ps.ru) /\ (ps'.eu => ps.eu) ]_vars                  \* a mode once stated stays known
=============================================================================
