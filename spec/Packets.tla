------------------------------ MODULE Packets -------------------------------
(***************************************************************************)
(* The Intel PT packet format: the size, bit layout and legal payloads of  *)
(* every packet (Intel SDM vol. 3, Intel PT packets), and what encoding a  *)
(* packet and decoding a byte sequence must give.                          *)
(***************************************************************************)
EXTENDS Word

Bit(b, n) == (b \div 2^n) % 2
Field(b, lo, width) == (b \div 2^lo) % 2^width

(***************************************************************************)
(* Decoding.  The result is [err, n, pkt]: err = "" on success.            *)
(***************************************************************************)
Err(e) == [err |-> e, n |-> 0, pkt |-> [t |-> ""]]
Ok(n, p) == [err |-> "", n |-> n, pkt |-> p]

IpSize(ipc) == CASE ipc = 0 -> 0 [] ipc = 1 -> 2 [] ipc = 2 -> 4
                 [] ipc = 3 -> 6 [] ipc = 4 -> 6 [] ipc = 6 -> 8
                 [] OTHER -> -1

\* n payload bytes starting at index i (1-based).
Val(b, i, n) == WBytes(SubSeq(b, i, i + n - 1))

\* A TNT payload including the stop bit.
DecTnt(t, w, n) ==
  LET s == TopBit(w) IN
  IF s < 1 THEN Err("bad_packet")
  ELSE Ok(n, [t |-> t, n |-> s,
              bits |-> [w EXCEPT ![(s \div 8) + 1] = @ - 2^(s % 8)]])

RECURSIVE DecCyc(_, _, _, _)
\* i: number of bytes consumed; v: value so far; s: bits so far.
DecCyc(b, i, v, s) ==
  IF Len(b) <= i THEN Err("eos")
  ELSE LET x == b[i + 1]
           bits == WInt(x \div 2)
           fits == IF s >= 64 THEN x \div 2 = 0
                   ELSE WShr(WShl(bits, s), s) = bits
           v1 == IF s >= 64 THEN v ELSE WOr(v, WShl(bits, s))
       IN IF ~fits \/ s >= 64 THEN Err("bad_packet")
          ELSE IF x % 2 = 1 THEN DecCyc(b, i + 1, v1, s + 7)
          ELSE Ok(i + 1, [t |-> "cyc", value |-> v1])

DecIp(t, b) ==
  LET ipc == b[1] \div 32
      n == IpSize(ipc)
  IN IF n < 0 THEN Err("bad_packet")
     ELSE IF Len(b) < 1 + n THEN Err("eos")
     ELSE Ok(1 + n, [t |-> t, ipc |-> ipc, ip |-> Val(b, 2, n)])

\* cb: what the callback for unknown packets answers; -9999 if there is none.
NoCallback == -9999
DecUnknown(b, cb) ==
  IF cb = NoCallback THEN Err("bad_opc")
  ELSE IF cb < 0 THEN Err("callback")
  ELSE IF cb > 255 THEN Err("invalid")
  ELSE IF Len(b) < cb THEN Err("eos")
  ELSE Ok(cb, [t |-> "unknown"])

Need(b, n, r) == IF Len(b) < n THEN Err("eos") ELSE r

PsbBytes == << 2, 130, 2, 130, 2, 130, 2, 130, 2, 130, 2, 130, 2, 130, 2, 130 >>

DecMode(b) ==
  LET m == b[2] leaf == m \div 32 IN
  CASE leaf = 0 -> Ok(2, [t |-> "mode_exec", csl |-> Bit(m, 0),
                          csd |-> Bit(m, 1), iflag |-> Bit(m, 2)])
    [] leaf = 1 -> Ok(2, [t |-> "mode_tsx", intx |-> Bit(m, 0),
                          abrt |-> Bit(m, 1)])
    [] OTHER -> Err("bad_packet")

DecPip(b) ==
  LET w == Val(b, 3, 6)
  IN Ok(8, [t |-> "pip", nr |-> w[1] % 2,
            cr3 |-> WShl(WShr(w, 1), 5)])

DecTma(b) ==
  LET ctc == b[3] + 256 * b[4]  fc == b[6] + 256 * b[7]
  IN IF fc > 511 \/ b[5] # 0 THEN Err("bad_packet")
     ELSE Ok(7, [t |-> "tma", ctc |-> ctc, fc |-> fc])

DecPtw(b) ==
  LET plc == Field(b[2], 5, 2)
      n == IF plc = 0 THEN 4 ELSE 8
  IN IF plc > 1 THEN Err("bad_packet")
     ELSE Need(b, 2 + n,
               Ok(2 + n, [t |-> "ptw", plc |-> plc, ip |-> Bit(b[2], 7),
                          payload |-> Val(b, 3, n)]))

DecTrig(b) ==
  LET pkt(icnt) == [t |-> "trig", trbv |-> b[3], icnt |-> icnt,
                    ip |-> Bit(b[2], 7), icntv |-> Bit(b[2], 6),
                    mult |-> Bit(b[2], 5)]
  IN IF Len(b) < 3 THEN Err("eos")
     ELSE IF Bit(b[2], 6) = 0 THEN Ok(3, pkt(0))
     ELSE IF Len(b) < 5 THEN Err("eos")
     ELSE Ok(5, pkt(b[4] + 256 * b[5]))

DecExt(b, cb) ==
  IF Len(b) < 2 THEN Err("eos")
  ELSE LET e == b[2] IN
  CASE e = 130 -> Need(b, 16,
                    IF SubSeq(b, 1, 16) = PsbBytes
                    THEN Ok(16, [t |-> "psb"]) ELSE Err("bad_packet"))
    [] e = 163 -> Need(b, 8, DecTnt("tnt_64", Val(b, 3, 6), 8))
    [] e = 67  -> Need(b, 8, DecPip(b))
    [] e = 243 -> Ok(2, [t |-> "ovf"])
    [] e = 35  -> Ok(2, [t |-> "psbend"])
    [] e = 3   -> Need(b, 4, Ok(4, [t |-> "cbr", ratio |-> b[3]]))
    [] e = 115 -> Need(b, 7, DecTma(b))
    [] e = 131 -> Ok(2, [t |-> "stop"])
    [] e = 200 -> Need(b, 7, Ok(7, [t |-> "vmcs",
                                    base |-> WShl(Val(b, 3, 5), 12)]))
    [] e = 195 -> IF Len(b) < 3 THEN Err("eos")
                  ELSE IF b[3] # 136 THEN DecUnknown(b, cb)
                  ELSE Need(b, 11, Ok(11, [t |-> "mnt",
                                           payload |-> Val(b, 4, 8)]))
    [] e = 98  -> Ok(2, [t |-> "exstop", ip |-> 0])
    [] e = 226 -> Ok(2, [t |-> "exstop", ip |-> 1])
    [] e = 194 -> Need(b, 10, Ok(10, [t |-> "mwait",
                                      hints |-> Val(b, 3, 4),
                                      ext |-> Val(b, 7, 4)]))
    [] e = 34  -> Need(b, 4, Ok(4, [t |-> "pwre",
                                    state |-> b[4] \div 16,
                                    sub_state |-> b[4] % 16,
                                    hw |-> Bit(b[3], 3)]))
    [] e = 162 -> Need(b, 7, Ok(7, [t |-> "pwrx",
                                    deepest |-> b[3] % 16,
                                    last |-> b[3] \div 16,
                                    int |-> Bit(b[4], 0),
                                    store |-> Bit(b[4], 2),
                                    auto |-> Bit(b[4], 3)]))
    [] e % 32 = 18 -> DecPtw(b)
    [] e = 19  -> Need(b, 4, Ok(4, [t |-> "cfe", type |-> b[3] % 32,
                                    ip |-> Bit(b[3], 7),
                                    vector |-> b[4]]))
    [] e = 83  -> Need(b, 11, Ok(11, [t |-> "evd", type |-> b[3] % 32,
                                      payload |-> Val(b, 4, 8)]))
    [] OTHER -> DecUnknown(b, cb)

\* b: all bytes from the current position to the end of the buffer.
Decode(b, cb) ==
  IF b = << >> THEN Err("eos")
  ELSE LET o == b[1] IN
  CASE o = 0   -> Ok(1, [t |-> "pad"])
    [] o = 2   -> DecExt(b, cb)
    [] o = 153 -> Need(b, 2, DecMode(b))
    [] o = 25  -> Need(b, 8, Ok(8, [t |-> "tsc", tsc |-> Val(b, 2, 7)]))
    [] o = 89  -> Need(b, 2, Ok(2, [t |-> "mtc", ctc |-> b[2]]))
    [] o = 217 -> DecTrig(b)
    [] o % 4 = 3 -> IF Bit(o, 2) = 1
                    THEN DecCyc(b, 1, WInt(o \div 8), 5)
                    ELSE Ok(1, [t |-> "cyc", value |-> WInt(o \div 8)])
    [] o % 2 = 0 -> DecTnt("tnt_8", WInt(o \div 2), 1)
    [] o % 32 = 29 -> DecIp("fup", b)
    [] o % 32 = 13 -> DecIp("tip", b)
    [] o % 32 = 17 -> DecIp("tip_pge", b)
    [] o % 32 = 1  -> DecIp("tip_pgd", b)
    [] OTHER -> DecUnknown(b, cb)

\* The callback is asked exactly for these.
AsksCallback(b) == Decode(b, -1).err = "callback"

(***************************************************************************)
(* Encoding.  Enc(p) is [err, b].                                          *)
(***************************************************************************)
EErr(e) == [err |-> e, b |-> << >>]
EOk(b) == [err |-> "", b |-> b]

IpOpc(t) == CASE t = "fup" -> 29 [] t = "tip" -> 13
              [] t = "tip_pge" -> 17 [] t = "tip_pgd" -> 1

\* Continuation bytes of a cyc packet for the remaining value w.
RECURSIVE EncCyc(_)
EncCyc(w) ==
  IF w = W0 THEN << >>
  ELSE LET rest == WShr(w, 7)
       IN << 2 * (w[1] % 128) + (IF rest # W0 THEN 1 ELSE 0) >> \o EncCyc(rest)

Enc(p) ==
  CASE p.t = "pad" -> EOk(<<0>>)
    [] p.t = "psb" -> EOk(PsbBytes)
    [] p.t = "psbend" -> EOk(<<2, 35>>)
    [] p.t = "ovf" -> EOk(<<2, 243>>)
    [] p.t = "stop" -> EOk(<<2, 131>>)
    [] p.t \in {"fup", "tip", "tip_pge", "tip_pgd"} ->
         LET n == IpSize(p.ipc) IN
         IF n < 0 THEN EErr("invalid")
         ELSE EOk(<<IpOpc(p.t) + 32 * p.ipc>> \o WLow(p.ip, n))
    [] p.t = "tnt_8" ->
         IF p.n < 1 \/ p.n > 6 \/ ~WFits(p.bits, p.n) THEN EErr("bad_packet")
         ELSE EOk(<<2 * (p.bits[1] + 2^p.n)>>)
    [] p.t = "tnt_64" ->
         IF p.n < 1 \/ p.n > 47 \/ ~WFits(p.bits, p.n) THEN EErr("invalid")
         ELSE EOk(<<2, 163>> \o WLow(WOr(p.bits, WPow2(p.n)), 6))
    [] p.t = "mode_exec" -> EOk(<<153, p.csl + 2 * p.csd + 4 * p.iflag>>)
    [] p.t = "mode_tsx" -> EOk(<<153, 32 + p.intx + 2 * p.abrt>>)
    [] p.t = "mode_bad" -> EErr("bad_packet")
    [] p.t = "pip" ->
         EOk(<<2, 67>> \o
             WLow(WOr(WShl(WShr(p.cr3, 5), 1), WInt(p.nr)), 6))
    [] p.t = "tsc" -> EOk(<<25>> \o WLow(p.tsc, 7))
    [] p.t = "cbr" -> EOk(<<2, 3, p.ratio, 0>>)
    [] p.t = "tma" ->
         IF p.fc > 511 THEN EErr("bad_packet")
         ELSE EOk(<<2, 115, p.ctc % 256, p.ctc \div 256, 0,
                    p.fc % 256, p.fc \div 256>>)
    [] p.t = "mtc" -> EOk(<<89, p.ctc>>)
    [] p.t = "cyc" ->
         LET rest == WShr(p.value, 5)
         IN EOk(<<3 + 8 * (p.value[1] % 32) + (IF rest # W0 THEN 4 ELSE 0)>>
                \o EncCyc(rest))
    [] p.t = "vmcs" -> EOk(<<2, 200>> \o WLow(WShr(p.base, 12), 5))
    [] p.t = "mnt" -> EOk(<<2, 195, 136>> \o p.payload)
    [] p.t = "exstop" -> EOk(<<2, 98 + 128 * p.ip>>)
    [] p.t = "mwait" -> EOk(<<2, 194>> \o WLow(p.hints, 4) \o WLow(p.ext, 4))
    [] p.t = "pwre" ->
         EOk(<<2, 34, 8 * p.hw, 16 * (p.state % 16) + (p.sub_state % 16)>>)
    [] p.t = "pwrx" ->
         EOk(<<2, 162, 16 * (p.last % 16) + (p.deepest % 16),
               p.int + 4 * p.store + 8 * p.auto, 0, 0, 0>>)
    [] p.t = "ptw" ->
         IF p.plc > 3 THEN EErr("internal")
         ELSE IF p.plc > 1 THEN EErr("bad_packet")
         ELSE EOk(<<2, 18 + 32 * p.plc + 128 * p.ip>> \o
                  WLow(p.payload, IF p.plc = 0 THEN 4 ELSE 8))
    [] p.t = "cfe" -> EOk(<<2, 19, (p.type % 32) + 128 * p.ip, p.vector>>)
    [] p.t = "evd" -> EOk(<<2, 83, p.type % 32>> \o p.payload)
    [] p.t = "trig" ->
         EOk(<<217, 128 * p.ip + 64 * p.icntv + 32 * p.mult, p.trbv>> \o
             (IF p.icntv = 1 THEN <<p.icnt % 256, p.icnt \div 256>>
              ELSE << >>))
    [] OTHER -> EErr("bad_opc")

\* The bits of p that its packet can carry.
Norm(p) ==
  CASE p.t \in {"fup", "tip", "tip_pge", "tip_pgd"} ->
         [p EXCEPT !.ip = WTrunc(@, IpSize(p.ipc))]
    [] p.t = "pip" -> [p EXCEPT !.cr3 = WShl(WTrunc(WShr(@, 5), 6), 5),
                       !.cr3 = WAnd(@, <<224, 255, 255, 255, 255, 255, 15, 0>>)]
    [] p.t = "tsc" -> [p EXCEPT !.tsc = WTrunc(@, 7)]
    [] p.t = "vmcs" -> [p EXCEPT !.base =
                          WAnd(@, <<0, 240, 255, 255, 255, 255, 15, 0>>)]
    [] p.t = "pwre" -> [p EXCEPT !.state = @ % 16, !.sub_state = @ % 16]
    [] p.t = "pwrx" -> [p EXCEPT !.last = @ % 16, !.deepest = @ % 16]
    [] p.t = "ptw" -> [p EXCEPT !.payload =
                         WTrunc(@, IF p.plc = 0 THEN 4 ELSE 8)]
    [] p.t = "cfe" -> [p EXCEPT !.type = @ % 32]
    [] p.t = "evd" -> [p EXCEPT !.type = @ % 32]
    [] p.t = "trig" -> [p EXCEPT !.icnt = IF p.icntv = 1 THEN @ ELSE 0]
    [] OTHER -> p
=============================================================================
