------------------------------ MODULE Tracker ------------------------------
(* The printer: what a controller's coordinates, modes, offsets, extruders  *)
(* and layers are after each command of a program.  It is used              *)
(*  - in lock step with the library's own position tracker (TrackerTrace),  *)
(*  - to execute both the source and the target of a weld (WelderTrace) and *)
(*    of a straightening (StraightTrace).                                   *)
(* Lengths are in 10^-5 mm, feedrates in 10^-3 mm/min.                      *)
(*                                                                          *)
(* A command is a record                                                    *)
(*   c   the command word, e.g. "G1" ("" for a line without command)        *)
(*   p   a record from parameter letter to integer value                    *)
(*   n   the set (as a sequence) of letters present, including valueless    *)
(*   cs  the text of the comment                                            *)
(*   empty  the line has no command text                                    *)
(* A configuration is a record                                              *)
(*   g90e  G90/G91 change the extruder mode too                             *)
(*   ru, eu  the axis mode, the extruder mode is not known until the        *)
(*           program states it (absent: known)                              *)
(*   met   lengths are known to be in millimetres (absent: they are)        *)
(*   ne    the number of extruders, zb: tools are numbered from 0           *)
(*   home  <<x, y, z>>, homeNone <<BOOLEAN...>>                             *)
(*   rl    retraction length per extruder, zl  Z lift height per extruder   *)
(*   prime, minlayer, hinc: priming height, minimum layer height, increment *)
(*   bound (BOOLEAN), circ (BOOLEAN), bx <<min,max>>, by, bz                *)
EXTENDS Arith, FiniteSets

Has(cmd, l) == l \in DOMAIN cmd.p
Named(cmd, l) == \E k \in DOMAIN cmd.n : cmd.n[k] = l

NewExtruder(fx, fy) ==
  [ e |-> 0, eo |-> 0, er |-> 0,                       \* position, offset, change
    xl |-> 0, xt |-> 0, rl |-> 0, dl |-> 0,            \* extrusion, total, retraction, deretraction
    xs |-> FALSE, xg |-> FALSE, pr |-> FALSE,          \* extruding start, extruding, primed
    rs |-> FALSE, rg |-> FALSE, rd |-> FALSE,          \* retracting start, retracting, retracted
    prt |-> FALSE,                                     \* partially retracted
    ds |-> FALSE, dg |-> FALSE, dd |-> FALSE,          \* deretracting start, deretracting, deretracted
    fx |-> fx, fy |-> fy, fz |-> 0 ]                   \* the tool's own offsets

InitialState(cfg) ==
  [ x |-> 0, y |-> 0, z |-> 0, xn |-> TRUE, yn |-> TRUE, zn |-> TRUE,
    xo |-> 0, yo |-> 0, zo |-> 0, xf |-> 0, yf |-> 0, zf |-> 0,
    xh |-> FALSE, yh |-> FALSE, zh |-> FALSE,
    f |-> 0, fn |-> TRUE,
    rel |-> cfg.rel, erel |-> cfg.erel,
    ru |-> "ru" \in DOMAIN cfg /\ cfg.ru, eu |-> "eu" \in DOMAIN cfg /\ cfg.eu,    \* not known yet
    tool |-> cfg.tool,
    ex |-> [k \in 1..cfg.ne |-> NewExtruder(cfg.fx[k], cfg.fy[k])],
    tag |-> 0,
    zr |-> 0, trav |-> FALSE, chxy |-> FALSE, ch |-> FALSE, def |-> FALSE,
    leh |-> 0, lehn |-> TRUE, lay |-> 0, h |-> 0, primed |-> FALSE,
    lc |-> FALSE, zhop |-> FALSE, hi |-> 0, hich |-> FALSE, hicc |-> 0, inb |-> TRUE ]

Clamp(cfg, t) == LET u == IF cfg.zb THEN t ELSE t - 1
                 IN IF u < 0 THEN 0 ELSE IF u > cfg.ne - 1 THEN cfg.ne - 1 ELSE u
Cur(ps) == ps.ex[ps.tool + 1]
GX(ps) == ps.x - ps.xo + ps.xf
GY(ps) == ps.y - ps.yo + ps.yf
GZ(ps) == ps.z - ps.zo + ps.zf
GE(ps) == Cur(ps).e - Cur(ps).eo

(* ------------------------------ G0 to G3 ------------------------------- *)
Move(ps, cmd) ==
  LET hx == Has(cmd, "X")  hy == Has(cmd, "Y")  hz == Has(cmd, "Z")  he == Has(cmd, "E")
      c0 == Cur(ps)
      \* where a number leads cannot be told while the mode is not known: nothing moves then
      mx == hx /\ ~ps.ru   my == hy /\ ~ps.ru   mz == hz /\ ~ps.ru   me == he /\ ~ps.eu
      absx == mx /\ ~ps.rel   absy == my /\ ~ps.rel   absz == mz /\ ~ps.rel
      nxf == IF absx THEN c0.fx ELSE ps.xf
      nyf == IF absy THEN c0.fy ELSE ps.yf
      nzf == IF absz THEN c0.fz ELSE ps.zf
  IN [ps EXCEPT
        !.f  = IF Has(cmd, "F") THEN cmd.p.F ELSE @,
        !.fn = IF Has(cmd, "F") THEN FALSE ELSE @,
        !.xf = nxf, !.yf = nyf, !.zf = nzf,
        !.x  = IF absx THEN cmd.p.X + ps.xo - nxf
               ELSE IF mx /\ ~ps.xn THEN @ + cmd.p.X ELSE @,
        !.y  = IF absy THEN cmd.p.Y + ps.yo - nyf
               ELSE IF my /\ ~ps.yn THEN @ + cmd.p.Y ELSE @,
        !.z  = IF absz THEN cmd.p.Z + ps.zo - nzf
               ELSE IF mz /\ ~ps.zn THEN @ + cmd.p.Z ELSE @,
        !.xn = IF absx THEN FALSE ELSE @,
        !.yn = IF absy THEN FALSE ELSE @,
        !.zn = IF absz THEN FALSE ELSE @,
        !.ex[ps.tool + 1].e = IF me THEN (IF ps.erel THEN @ + cmd.p.E ELSE cmd.p.E + c0.eo) ELSE @,
        !.trav = ~he /\ (hx \/ hy) ]

(* ------------------------------- homing -------------------------------- *)
Home(cfg, ps, cmd) ==
  LET all == ~Named(cmd, "X") /\ ~Named(cmd, "Y") /\ ~Named(cmd, "Z")
      hx == all \/ Named(cmd, "X")   hy == all \/ Named(cmd, "Y")   hz == all \/ Named(cmd, "Z")
  IN [ps EXCEPT
        !.xh = @ \/ hx, !.yh = @ \/ hy, !.zh = @ \/ hz,
        !.x  = IF hx /\ ~cfg.homeNone[1] THEN cfg.home[1] ELSE @,
        !.y  = IF hy /\ ~cfg.homeNone[2] THEN cfg.home[2] ELSE @,
        !.z  = IF hz /\ ~cfg.homeNone[3] THEN cfg.home[3] ELSE @,
        !.xn = IF hx THEN cfg.homeNone[1] ELSE @,
        !.yn = IF hy THEN cfg.homeNone[2] ELSE @,
        !.zn = IF hz THEN cfg.homeNone[3] ELSE @ ]

(* -------------------------- coordinate resets -------------------------- *)
Reset(ps, cmd) ==
  LET p1 == IF Named(cmd, "O") THEN [ps EXCEPT !.xh = TRUE, !.yh = TRUE, !.zh = TRUE] ELSE ps
      hx == Named(cmd, "X")   hy == Named(cmd, "Y")   hz == Named(cmd, "Z")   he == Named(cmd, "E")
      v(l) == IF Has(cmd, l) THEN cmd.p[l] ELSE 0
  IN IF ~Named(cmd, "O") /\ ~hx /\ ~hy /\ ~hz /\ ~he
     THEN [p1 EXCEPT
             !.xo = IF ~ps.xn THEN ps.x + ps.xf ELSE @,
             !.yo = IF ~ps.yn THEN ps.y + ps.yf ELSE @,
             !.zo = IF ~ps.zn THEN ps.z + ps.zf ELSE @,
             !.ex[ps.tool + 1].eo = Cur(ps).e]
     ELSE LET kx == ~p1.xn /\ p1.xh   ky == ~p1.yn /\ p1.yh   kz == ~p1.zn /\ p1.zh
          IN [p1 EXCEPT
             !.xo = IF ~hx THEN @ ELSE IF kx THEN ps.x - v("X") + ps.xf ELSE 0,
             !.yo = IF ~hy THEN @ ELSE IF ky THEN ps.y - v("Y") + ps.yf ELSE 0,
             !.zo = IF ~hz THEN @ ELSE IF kz THEN ps.z - v("Z") + ps.zf ELSE 0,
             !.x  = IF hx /\ ~kx THEN v("X") ELSE @,
             !.y  = IF hy /\ ~ky THEN v("Y") ELSE @,
             !.z  = IF hz /\ ~kz THEN v("Z") ELSE @,
             !.xn = IF hx THEN FALSE ELSE @,
             !.yn = IF hy THEN FALSE ELSE @,
             !.zn = IF hz THEN FALSE ELSE @,
             !.ex[ps.tool + 1].eo = IF he THEN Cur(ps).e - v("E") ELSE @]

(* --------------------------- tool offsets ------------------------------ *)
\* the nearest whole number of a value in 10^-5, halves away from zero
ToInt(v) == IF v < 0 THEN -((-v + 50000) \div 100000) ELSE (v + 50000) \div 100000
Offsets(cfg, ps, cmd, l) ==
  IF ~Has(cmd, l) THEN ps
  ELSE LET k == Clamp(cfg, ToInt(cmd.p[l])) + 1
       IN [ps EXCEPT !.ex[k].fx = IF Has(cmd, "X") THEN cmd.p.X ELSE @,
                     !.ex[k].fy = IF Has(cmd, "Y") THEN cmd.p.Y ELSE @,
                     !.ex[k].fz = IF Has(cmd, "Z") THEN cmd.p.Z ELSE @]

Interpreted == { "G0", "G1", "G2", "G3", "G10", "G11", "G20", "G21", "G28", "G90", "G91", "G92",
                 "M82", "M83", "M207", "M208", "M218", "M563", "T" }

Apply(cfg, ps, cmd) ==
  CASE cmd.c \in { "G0", "G1", "G2", "G3" } -> Move(ps, cmd)
    [] cmd.c = "G28"  -> Home(cfg, ps, cmd)
    [] cmd.c = "G90"  -> [ps EXCEPT !.rel = FALSE, !.ru = FALSE, !.erel = IF cfg.g90e THEN FALSE ELSE @, !.eu = @ /\ ~cfg.g90e]
    [] cmd.c = "G91"  -> [ps EXCEPT !.rel = TRUE,  !.ru = FALSE, !.erel = IF cfg.g90e THEN TRUE ELSE @, !.eu = @ /\ ~cfg.g90e]
    [] cmd.c = "G92"  -> Reset(ps, cmd)
    [] cmd.c = "M82"  -> [ps EXCEPT !.erel = FALSE, !.eu = FALSE]
    [] cmd.c = "M83"  -> [ps EXCEPT !.erel = TRUE, !.eu = FALSE]
    [] cmd.c = "G10"  -> Offsets(cfg, ps, cmd, "P")
    [] cmd.c = "M218" -> Offsets(cfg, ps, cmd, "T")
    [] cmd.c = "T" /\ Has(cmd, "T") -> [ps EXCEPT !.tool = Clamp(cfg, cmd.p.T)]
    [] OTHER -> ps

(* ----------------- the filament ledger of the tool in use -------------- *)
Ledger(cfg, prev, ps) ==
  LET k  == ps.tool + 1
      c  == ps.ex[k]
      po == prev.ex[k]                     \* the same tool before the command
      er == c.er
      same == prev.tool = ps.tool
      cont == er > 0 /\ same /\ po.xg /\ ~po.xs     \* extrusion simply goes on
      rl == IF c.rl - er <= 0 THEN 0 ELSE c.rl - er
      xl == IF c.rl - er <= 0 THEN er - c.rl ELSE 0
      dl == IF po.rl > rl THEN po.rl - rl ELSE 0
  IN IF cont THEN [ps EXCEPT !.ex[k].xl = er, !.ex[k].xt = @ + er]
     ELSE [ps EXCEPT !.ex[k] =
       [c EXCEPT !.xt = @ + er, !.rl = rl, !.xl = xl, !.dl = dl,
          !.xs  = same /\ xl > 0 /\ ~po.xg,
          !.xg  = same /\ xl > 0,
          !.rs  = same /\ rl > 0 /\ ~po.rg,
          !.rg  = same /\ rl > po.rl,
          !.dg  = same /\ dl > po.dl,
          !.ds  = same /\ dl > 0 /\ ~po.dg,
          !.pr  = xl = 0 /\ rl = 0,
          !.prt = rl > 0 /\ rl < cfg.rl[k],
          !.rd  = rl >= cfg.rl[k],
          !.dd  = po.rl > 0 /\ rl = 0]]

(* ------------------------------- layers -------------------------------- *)
InBounds(cfg, ps) ==
  IF ~cfg.bound THEN TRUE
  ELSE IF cfg.circ THEN CmpSq(2 * ps.x, 2 * ps.y, 2 * cfg.bx[2] + 1) < 0    \* to the nearest unit
  ELSE ps.x >= cfg.bx[1] /\ ps.x <= cfg.bx[2] /\ ps.y >= cfg.by[1] /\ ps.y <= cfg.by[2]
       /\ ps.z >= cfg.bz[1] /\ ps.z <= cfg.bz[2]

Layers(cfg, prev, ps0) ==
  LET inb == InBounds(cfg, ps0)
      ps  == IF cfg.bound THEN [ps0 EXCEPT !.inb = inb] ELSE ps0
      c   == Cur(ps)
      pushes == c.xg \/ (ps.lay > 0 /\ c.dd)
      primed == ps.primed \/ (pushes /\ (cfg.prime <= 0 \/ ps.z < cfg.prime))
      counts == pushes /\ primed /\ inb
      newl   == counts /\ ps.z >= prev.h + cfg.minlayer
      inc    == IF cfg.hinc # 0 /\ newl THEN ps.z \div cfg.hinc ELSE 0
      incch  == inc > ps.hi /\ inc > 1
      lehn   == IF counts THEN FALSE ELSE ps.lehn
      leh    == IF counts THEN ps.z ELSE ps.leh
  IN IF ~(ps.z > ps.leh /\ ~ps.zn) THEN [ps EXCEPT !.zhop = FALSE]
     ELSE [ps EXCEPT
        !.primed = primed, !.leh = leh, !.lehn = lehn,
        !.h = IF newl THEN ps.z ELSE @,
        !.lc = IF newl THEN TRUE ELSE @,
        !.lay = IF newl THEN @ + 1 ELSE @,
        !.hi = IF incch THEN inc ELSE @,
        !.hich = IF incch THEN TRUE ELSE @,
        !.hicc = IF incch THEN @ + 1 ELSE @,
        !.zhop = ~c.xg /\ ~lehn /\ ps.z - leh >= cfg.zl[ps.tool + 1] ]

(* ------------------- feature types from comments ----------------------- *)
\* Slic3r PE's comments on commands (numbers as in Features.tla)
PerCommand == [ k \in { "perimeter", "move to first perimeter point", "infill", "move to first infill point",
                        "infill(bridge)", "move to first infill(bridge) point", "skirt", "move to first skirt point" } |->
          CASE k \in { "perimeter", "move to first perimeter point" } -> 3
            [] k \in { "infill", "move to first infill point" } -> 9
            [] k \in { "infill(bridge)", "move to first infill(bridge) point" } -> 1
            [] OTHER -> 5 ]
TagOf(cmd) == IF cmd.cs \in DOMAIN PerCommand THEN PerCommand[cmd.cs] ELSE 0

(* ------------------------- one line of gcode --------------------------- *)
\* everything that describes the last command only is cleared first
Fresh(ps) == [ps EXCEPT !.ex[ps.tool + 1].er = 0, !.zr = 0, !.trav = FALSE, !.ch = FALSE,
                        !.lc = FALSE, !.hich = FALSE, !.tag = 0]

Metric(cfg) == "met" \in DOMAIN cfg => cfg.met
Motion(cfg, ps, cmd) ==
  LET b  == Fresh(ps)
      a0 == Apply(cfg, b, cmd)
      k  == a0.tool + 1
      er == a0.ex[k].e - ps.ex[k].e
      xy == a0.x # ps.x \/ a0.y # ps.y
      a1 == [a0 EXCEPT !.ex[k].er = er, !.zr = a0.z - ps.z, !.chxy = xy,
               !.ch = xy \/ a0.z # ps.z \/ er # 0 \/ a0.xn # ps.xn \/ a0.yn # ps.yn \/ a0.zn # ps.zn,
               !.def = @ \/ (Metric(cfg) /\ ~a0.xn /\ ~a0.yn /\ ~a0.zn /\ ~a0.ru /\ ~a0.eu)]
  IN IF cmd.c \notin Interpreted THEN b ELSE a1

\* the coordinates, modes, offsets and tools only
ExecMotion(cfg, ps, cmd) == [Motion(cfg, ps, cmd) EXCEPT !.tag = TagOf(cmd)]
\* the complete tracked state
ExecFull(cfg, ps, cmd) ==
  LET m == Motion(cfg, ps, cmd)
  IN IF m.ch THEN Layers(cfg, ps, Ledger(cfg, ps, m)) ELSE m
=============================================================================
