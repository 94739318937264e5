------------------------------- MODULE LabMapsMC -------------------------------
(* Recordings of these instruments as machines that append to a file, and what *)
(* is found where when the file is read by the rules of LabMaps.               *)
EXTENDS LabMaps
CONSTANTS Side
VARIABLES ny, nx, nz, at, file
vars == <<ny, nx, nz, at, file>>
\* at: the position of the beam; a spectrum <<y, x, c>> per channel is appended
Init == /\ ny \in 1..Side /\ nx \in 1..Side /\ nz \in 1..Side /\ at = <<0, 0>> /\ file = <<>>
Next == /\ at[1] < ny
        /\ file' = file \o [c \in 1..nz |-> <<at[1], at[2], c - 1>>]
        /\ at' = IF at[2] + 1 = nx THEN <<at[1] + 1, 0>> ELSE <<at[1], at[2] + 1>>
        /\ UNCHANGED <<ny, nx, nz>>
Spec == Init /\ [][Next]_vars
Done == at[1] = ny
MapRight == Done => \A y \in 0..(ny-1), x \in 0..(nx-1), c \in 0..(nz-1) : file[EdaxWord(y, x, c, nx, nz) + 1] = <<y, x, c>>
\* interrupted after some spectra: a line scan has just these
LineRight == LET ns == Len(file) \div nz  L == EdaxLine(ny, nx, ns, nz) IN [i \in 1..Len(L) |-> file[L[i] + 1]] = file
\* the file written in Fortran order by someone who calls the axes (nz, nx, ny)
FortranRight == Done =>
  LET vs == <<nz, nx, ny>> IN
    /\ \A k \in 0..(ProdSeq(vs) - 1) : WordOf(PosOf(k, vs), vs) = k
    /\ {FortranWord(k, vs) : k \in 0..(ProdSeq(vs) - 1)} = 0..(ProdSeq(vs) - 1)
    \* position (y, x, c) of the result is position (c, x, y) of the file
    /\ \A y \in 0..(ny-1), x \in 0..(nx-1), c \in 0..(nz-1) : FortranWord(WordOf(<<y, x, c>>, <<ny, nx, nz>>), vs) = WordOf(<<c, x, y>>, vs)
\* no row of a footer is taken for one of an image
NoFooter == \A f \in 0..2, r \in {0, 1, 127}, c \in {0, 127} : (EmpadWord(f, r, c) \div 128) % Rows = r /\ r < ImageRows
Kept == LongOf(<<ny, nx, nz>>, <<ny, nx, nz>>) = Long(<<ny, nx, nz>>) /\ ProdSeq(Long(<<ny, nx, nz>>)) = ny * nx * nz
=============================================================================
