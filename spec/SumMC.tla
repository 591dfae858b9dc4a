------------------------------- MODULE SumMC --------------------------------
(* The checksum by table and by slices equals the one by bits; the hash of   *)
(* words is the hash of their bytes; published values.                       *)
EXTENDS Sum
CONSTANTS Vals, Max
VARIABLES bs
Init == bs = <<>>
Next == Len(bs) < Max /\ \E v \in Vals : bs' = Append(bs, v)
Same == CrcFrom(<<65535, 65535>>, bs, 1) = CrcBits(<<65535, 65535>>, bs, 1)
Sliced == Len(bs) >= 8 => LET k == Len(bs) - 8 IN
   CrcFrom(<<65535, 65535>>, bs, 1) = Slice8(CrcFrom(<<65535, 65535>>, SubSeq(bs, 1, k), 1), SubSeq(bs, k + 1, k + 8))
Hashes == /\ Len(bs) % 4 = 0 => HashWord2(LittleWords(bs), <<1, 2>>, <<0, 7>>) = HashLittle2(bs, <<1, 2>>, <<0, 7>>)
          /\ LET s == <<<<1, Len(bs)>>, <<0, At(bs, 1)>>, <<At(bs, 2), 3>>>> IN
             /\ Sub(Add(s[1], s[2]), s[2]) = s[1]
             /\ Rot(Rot(s[3], 19), 13) = s[3]
Four == <<70,111,117,114,32,115,99,111,114,101,32,97,110,100,32,115,101,118,101,110,32,121,101,97,114,115,32,97,103,111>>
ASSUME Crc(<<49,50,51,52,53,54,55,56,57>>) = <<58118, 37507>>                           \* E3069283
ASSUME Crc([k \in 1..32 |-> 0]) = <<35473, 13994>> /\ Crc([k \in 1..32 |-> 255]) = <<25256, 43843>>   \* 8A9136AA 62A8AB43
ASSUME /\ HashLittle2(<<>>, <<0, 0>>, <<0, 0>>) = <<<<57005, 48879>>, <<57005, 48879>>>>     \* deadbeef deadbeef
       /\ HashLittle2(<<>>, <<0, 0>>, <<57005, 48879>>) = <<<<48475, 32222>>, <<57005, 48879>>>>  \* bd5b7dde deadbeef
       /\ HashLittle2(Four, <<0, 0>>, <<0, 0>>) = <<<<6007, 1361>>, <<52850, 9958>>>>        \* 17770551 ce7226e6
       /\ HashLittle2(Four, <<0, 0>>, <<0, 1>>) = <<<<58208, 31918>>, <<48439, 7652>>>>      \* e3607cae bd371de4
       /\ HashLittle2(Four, <<0, 1>>, <<0, 0>>) = <<<<52578, 33121>>, <<27838, 42163>>>>     \* cd628161 6cbea4b3
=============================================================================
