----------------------------- MODULE GifFields -----------------------------
(***************************************************************************)
(* Packed fields: the state is the flags byte (and the plain fields), each *)
(* setter is an action, each getter a function of the state.               *)
(***************************************************************************)
EXTENDS GifEncode

-----------------------------------------------------------------------------
\* Color table configuration [ex, so, len]; seen as
\* <<existence, ordering, length, size in bytes, is empty>>
CfgNew(c) == [ex |-> c[1], so |-> c[2], len |-> TableLen(c[3])]
CfgDefault == [ex |-> 0, so |-> 0, len |-> 2]
CfgShow(c) == LET n == IF c.ex = 1 THEN c.len ELSE 0
              IN <<c.ex, c.so, n, 3 * n, IF n = 0 THEN 1 ELSE 0>>
LenBits(n) == CHOOSE b \in 0..7 : 2^(b + 1) = n

LsdCfg(flags) == [ex |-> BitField(flags, 7, 1), so |-> BitField(flags, 3, 1),
                  len |-> 2^(BitField(flags, 0, 3) + 1)]
ImgCfg(flags) == [ex |-> BitField(flags, 7, 1), so |-> BitField(flags, 5, 1),
                  len |-> 2^(BitField(flags, 0, 3) + 1)]

-----------------------------------------------------------------------------
\* Logical screen descriptor

LsdInit == [k |-> "lsd", w |-> 0, h |-> 0, flags |-> 0, bg |-> 0, ar |-> 0]
\* The configuration also gives the color resolution
LsdSetCfg(flags, c) == 128 * c.ex + 17 * LenBits(c.len) + 8 * c.so
LsdSet(b, c) ==
    CASE c[1] = "w" -> [b EXCEPT !.w = c[2]]
      [] c[1] = "h" -> [b EXCEPT !.h = c[2]]
      [] c[1] = "flags" -> [b EXCEPT !.flags = c[2]]
      [] c[1] = "bg" -> [b EXCEPT !.bg = c[2]]
      [] c[1] = "ar" -> [b EXCEPT !.ar = c[2]]
      [] c[1] = "cfg" -> [b EXCEPT !.flags = LsdSetCfg(@, CfgNew(c[2]))]
      [] OTHER -> [b EXCEPT !.flags = LsdSetCfg(@, LsdCfg(c[2]))]
LsdShow(b) == [k |-> "lsd", w |-> b.w, h |-> b.h, flags |-> b.flags,
               bg |-> b.bg, ar |-> b.ar, res |-> 2^(BitField(b.flags, 4, 3) + 1),
               cfg |-> CfgShow(LsdCfg(b.flags))]

-----------------------------------------------------------------------------
\* Image descriptor

ImgInit == [k |-> "img", left |-> 0, top |-> 0, w |-> 0, h |-> 0, flags |-> 0]
ImgSetCfg(flags, c) ==
    SetField(SetField(SetField(flags, 7, 1, c.ex), 5, 1, c.so), 0, 3,
             LenBits(c.len))
ImgSet(b, c) ==
    CASE c[1] = "left" -> [b EXCEPT !.left = c[2]]
      [] c[1] = "top" -> [b EXCEPT !.top = c[2]]
      [] c[1] = "w" -> [b EXCEPT !.w = c[2]]
      [] c[1] = "h" -> [b EXCEPT !.h = c[2]]
      [] c[1] = "flags" -> [b EXCEPT !.flags = c[2]]
      [] c[1] = "il" -> [b EXCEPT !.flags = SetField(@, 6, 1, c[2])]
      [] c[1] = "cfg" -> [b EXCEPT !.flags = ImgSetCfg(@, CfgNew(c[2]))]
      [] OTHER -> [b EXCEPT !.flags = ImgSetCfg(@, ImgCfg(c[2]))]
\* The number of pixels is seen in two parts (it may need 32 bits):
\* sz = 65536 * high + low
SizeParts(w, h) ==
    LET a == w * (h \div 256)        \* < 2^24, weight 256
        b == w * (h % 256)           \* < 2^24
        lo == (a % 256) * 256 + b    \* < 2^25
    IN <<a \div 256 + lo \div 65536, lo % 65536>>
ImgShow(b) == [k |-> "img", left |-> b.left, top |-> b.top, w |-> b.w,
               h |-> b.h, flags |-> b.flags, il |-> BitField(b.flags, 6, 1),
               sz |-> SizeParts(b.w, b.h), cfg |-> CfgShow(ImgCfg(b.flags))]

-----------------------------------------------------------------------------
\* Graphic control

GcInit == GceItem(0, 0, 0)
GcSet(b, c) ==
    CASE c[1] = "flags" -> [b EXCEPT !.flags = c[2]]
      [] c[1] = "disp" -> [b EXCEPT !.flags = SetField(@, 2, 3, c[2] % 8)]
      [] c[1] = "dispnum" -> [b EXCEPT !.flags = SetField(@, 2, 3, c[2] % 8)]
      [] c[1] = "ui" -> [b EXCEPT !.flags = SetField(@, 1, 1, c[2])]
      [] c[1] = "delay" -> [b EXCEPT !.delay = c[2]]
      [] c[1] = "idx" -> [b EXCEPT !.tr = c[2]]
      [] c[2] = None -> [b EXCEPT !.flags = SetField(@, 0, 1, 0), !.tr = 0]
      [] OTHER -> [b EXCEPT !.flags = SetField(@, 0, 1, 1), !.tr = c[2][1]]
DisposalName(n) == IF n > 3 THEN "res"
                   ELSE <<"none", "keep", "bg", "prev">>[n + 1]
GcShow(b) == [k |-> "gce", flags |-> b.flags, delay |-> b.delay, idx |-> b.tr,
              trn |-> Transparent(Some(b)), ui |-> BitField(b.flags, 1, 1),
              disp |-> DisposalName(BitField(b.flags, 2, 3)),
              dnum |-> BitField(b.flags, 2, 3)]

-----------------------------------------------------------------------------
\* Application extension and color tables

AppInit(loop) == IF loop = None THEN [k |-> "app", s |-> <<>>]
                 ELSE LoopApp(loop[1])
AppAdd(b, data) == [b EXCEPT !.s = Append(@, data)]
AppShow(b) == [k |-> "app", s |-> b.s, loop |-> LoopCount(b.s)]

TblShow(c) == LET n == Len(c) \div 3
                  e == IF n = 0 THEN 1 ELSE 0
              IN [k |-> "tbl", g |-> c, gl |-> n, ge |-> e, l |-> c, ll |-> n,
                  le |-> e]

-----------------------------------------------------------------------------
\* Step settings (a delay of zero and no delay are the same setting)

StepShow(ctl) == [k |-> "set", delay |-> ctl.delay, trn |-> ctl.trn]

\* ---- all of them
FieldInit(type, loop) ==
    CASE type = "lsd" -> LsdInit
      [] type = "img" -> ImgInit
      [] type = "gce" -> GcInit
      [] type = "cfg" -> CfgDefault
      [] type = "app" -> AppInit(loop)
      [] type = "tables" -> None
      [] OTHER -> StepDefault
FieldSet(type, b, c) ==
    CASE type = "lsd" -> LsdSet(b, c)
      [] type = "img" -> ImgSet(b, c)
      [] type = "gce" -> GcSet(b, c)
      [] type = "cfg" -> CfgNew(c)
      [] type = "app" -> AppAdd(b, c)
      [] type = "tables" -> c
      [] OTHER -> StepSet(b, c)
FieldShow(type, b) ==
    CASE type = "lsd" -> LsdShow(b)
      [] type = "img" -> ImgShow(b)
      [] type = "gce" -> GcShow(b)
      [] type = "cfg" -> [k |-> "cfg", c |-> CfgShow(b)]
      [] type = "app" -> AppShow(b)
      [] type = "tables" -> TblShow(b)
      [] OTHER -> StepShow(b)
=============================================================================
