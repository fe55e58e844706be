------------------------------ MODULE MCGenesis ------------------------------
(* The replay machine on small archives: blocks add to a counter and claim a   *)
(* result; some do not decode, some do not apply.  The machine accepts exactly *)
(* the archives all of whose entries are right, and stops at the first that is *)
(* not.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxEntries, Limit

(* entries: <<add, claim>>, or "junk" *)
DecodedEntry(b) == [ok |-> b # <<0>>, v |-> b]
Adds(s, v) == IF s + v[1] <= Limit THEN [ok |-> TRUE, s |-> s + v[1], why |-> ""] ELSE [ok |-> FALSE, s |-> s, why |-> "too much"]
Ident(s) == s
Claim(v) == v[2]
Txs(v) == v[1]
Listing(b) == [ok |-> b # <<>>, v |-> b]
PutN(s, a, n) == s + n
G == INSTANCE Genesis WITH BlockIn <- DecodedEntry, AccountsIn <- Listing, EmptyState <- 0, Put <- PutN, Push <- Adds,
       Root <- Ident, ClaimedRoot <- Claim, TxCount <- Txs

Entries == {<<0>>} \cup ((0..2) \X (0..Limit + 1))
Profiles == [conf : {[ok |-> TRUE, v |-> "c"], [ok |-> FALSE]},
             block : {[there |-> FALSE], [there |-> TRUE, bytes |-> <<0>>], [there |-> TRUE, bytes |-> <<1, 1>>], [there |-> TRUE, bytes |-> <<1, 2>>]},
             accounts : {[there |-> FALSE], [there |-> TRUE, bytes |-> <<>>], [there |-> TRUE, bytes |-> << [addr |-> "a", acc |-> 1] >>],
                         [there |-> TRUE, bytes |-> << [addr |-> "a", acc |-> 0] >>]}]

VARIABLES files, m, read
vars == <<files, m, read>>
Init == files \in Profiles /\ m = G!ReplayStart(files) /\ read = <<>>
Read == Len(read) < MaxEntries /\ \E e \in Entries : read' = Append(read, e) /\ m' = G!ReplayEntry(m, e) /\ UNCHANGED files
Spec == Init /\ [][Read]_vars

RECURSIVE Sum(_)
Sum(n) == IF n = 0 THEN 0 ELSE read[n][1] + Sum(n - 1)
Base == files.accounts.bytes[1].acc + files.block.bytes[1]
RightProfile == /\ files.conf.ok /\ files.block.there /\ files.accounts.there /\ files.block.bytes # <<0>> /\ files.accounts.bytes # <<>>
                /\ files.block.bytes[2] = Base
RightEntry(n) == read[n] # <<0>> /\ Base + Sum(n) <= Limit /\ read[n][2] = Base + Sum(n)
(* C30, C31 *)
AcceptsExactly == m.ok <=> IF RightProfile THEN \A n \in DOMAIN read : RightEntry(n) ELSE FALSE
Counts == m.ok => m.blocks = Len(read) /\ m.txs = Sum(Len(read)) /\ m.s = Base + Sum(Len(read))
Final == [][~m.ok => m' = m]_vars
=============================================================================
