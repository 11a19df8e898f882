------------------------------- MODULE Values -------------------------------
(* What values a metric takes: the admission rule and the stored form.        *)
(*                                                                            *)
(* A Go value is [k |-> kind, w |-> word, f |-> word, s |-> symbol]: w is the *)
(* integer in two's complement or the IEEE 754 bits, f the bits of a float64  *)
(* rounded to float32, s the symbol of a string.                              *)
(* A stored value is [w |-> word, s |-> symbol], w being what is found in the *)
(* eight bytes of a value slot.                                               *)
EXTENDS Bits

Int32T == 0  Uint32T == 1  Int64T == 2  Uint64T == 3
FloatT == 4  DoubleT == 5  StringT == 6
NumTypes == 0..5

SlotMax == 256

LOCAL MaxI32 == <<0, 0, 32767, 65535>>
LOCAL MinI32 == <<65535, 65535, 32768, 0>>
LOCAL MaxU32 == <<0, 0, 65535, 65535>>

(* float64 bits without the sign; the order of the bits is that of the numbers *)
LOCAL Magnitude(w) == <<w[1] % 32768, w[2], w[3], w[4]>>
(* float64(math.MaxFloat32) = 0x47EFFFFFE0000000 *)
LOCAL MaxF32 == <<18415, 65535, 57344, 0>>

Admits(t, v, len) ==
    CASE v.k = "int"     -> \/ t = Int64T
                            \/ t = Int32T  /\ SLe(MinI32, v.w) /\ SLe(v.w, MaxI32)
                            \/ t = Uint32T /\ ~IsNeg(v.w) /\ ULe(v.w, MaxU32)
                            \/ t = Uint64T /\ ~IsNeg(v.w)
      [] v.k = "uint"    -> \/ t = Uint64T
                            \/ t = Uint32T /\ ULe(v.w, MaxU32)
      [] v.k = "int32"   -> t = Int32T
      [] v.k = "int64"   -> t = Int64T
      [] v.k = "uint32"  -> t = Uint32T
      [] v.k = "uint64"  -> t = Uint64T
      [] v.k = "float32" -> t = FloatT
      [] v.k = "float64" -> \/ t = DoubleT
                            \/ t = FloatT /\ ULe(Magnitude(v.w), MaxF32)
      [] v.k = "string"  -> t = StringT /\ len <= SlotMax
      [] OTHER           -> FALSE

IsNaN(t, w) == \/ t = DoubleT /\ w[1] % 32768 >= 32752 /\ ~(w[1] % 32768 = 32752 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0)
               \/ t = FloatT /\ w[3] % 32768 >= 32640 /\ ~(w[3] % 32768 = 32640 /\ w[4] = 0)

(* negative zero counts as zero, they are equal as floats; all NaNs count as one *)
Norm(t, w) == IF t = DoubleT /\ w = <<32768, 0, 0, 0>> THEN W0
              ELSE IF t = FloatT /\ w = <<0, 0, 32768, 0>> THEN W0
              ELSE IF t \in {DoubleT, FloatT} /\ IsNaN(t, w) THEN <<32767, 65535, 65535, 65535>>
              ELSE w

Stored(t, v) ==
    IF t = StringT THEN [w |-> W0, s |-> v.s]
    ELSE [w |-> Norm(t, IF t \in {Int32T, Uint32T} THEN Low32(v.w)
                        ELSE IF t = FloatT /\ v.k = "float64" THEN v.f
                        ELSE v.w),
          s |-> 0]

GoKind(t) == CASE t = Int32T -> "int32" [] t = Uint32T -> "uint32" [] t = Int64T -> "int64"
               [] t = Uint64T -> "uint64" [] t = FloatT -> "float32" [] t = DoubleT -> "float64"
               [] OTHER -> "string"
=============================================================================
