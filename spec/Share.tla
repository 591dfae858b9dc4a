-------------------------------- MODULE Share --------------------------------
(* Searches led at the same time.  Search i is to deliver Plan[i]; a step    *)
(* fetches the next element into a work area, works on it there and delivers *)
(* what the area then holds.  Area(i) says where search i works: when no two *)
(* searches work in the same place, every interleaving delivers to each what *)
(* it would be delivered alone.                                              *)
EXTENDS Naturals, Sequences
Fetch(st, i, a) == [st EXCEPT !.area[a] = st.plan[i][st.at[i] + 1], !.at[i] = @ + 1, !.busy[i] = TRUE]
Deliver(st, i, a) == [st EXCEPT !.got[i] = Append(@, st.area[a]), !.busy[i] = FALSE]
CanFetch(st, i) == ~st.busy[i] /\ st.at[i] < Len(st.plan[i])
CanDeliver(st, i) == st.busy[i]
AsAlone(st, i) == st.got[i] = SubSeq(st.plan[i], 1, Len(st.got[i]))
=============================================================================
