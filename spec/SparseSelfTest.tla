-------------------------- MODULE SparseSelfTest --------------------------
(* SLin's evaluation is its definition, exhaustively over small forms.      *)
EXTENDS Sparse
VARIABLE c
Z == {"0", "1", "2"}
Forms == {SelectSeq(<< <<1, a>>, <<2, b>>, <<4, d>> >>, LAMBDA p : p[2] # "0") : a \in Z, b \in Z, d \in Z}
         \cup {<< <<2, "2">>, <<3, "1">> >>, << <<5, "2">> >>}
Init == c \in Z \X Z
Next == UNCHANGED c
SelfTest == /\ \A f, g \in Forms : SLin("3", c, <<f, g>>) = SLinDef("3", c, <<f, g>>)
            /\ SLin("3", <<>>, <<>>) = <<>>
=============================================================================
