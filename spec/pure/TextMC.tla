------------------------------- MODULE TextMC -------------------------------
(* Version comparison is a total preorder that puts release candidates before and +wb builds after the release;     *)
(* topics become valid and stay so; byte stuffing is undone by its reverse.                                         *)
EXTENDS Text
CONSTANT Parts
VARIABLES a, b
S(str) == CASE str = "0" -> <<48>> [] str = "1" -> <<49>> [] str = "9" -> <<57>> [] str = "10" -> <<49, 48>> [] str = "010" -> <<48, 49, 48>>
            [] str = "130" -> <<49, 51, 48>>
            [] str = "1rc2" -> <<49>> \o RC \o <<50>> [] str = "1rc10" -> <<49>> \o RC \o <<49, 48>> [] str = "1rc200" -> <<49>> \o RC \o <<50, 48, 48>>
            [] str = "1wb0" -> <<49>> \o WB \o <<48>> [] str = "1wb3" -> <<49>> \o WB \o <<51>> [] str = "x" -> <<120>> [] OTHER -> <<>>
P == {S(p): p \in Parts}
V == P \cup {p \o <<46>> \o q: p, q \in P}
Init == a \in V /\ b \in V
Next == UNCHANGED <<a, b>>
Order ==
    /\ Compare(a, a) = 0
    /\ Compare(a, b) = -Compare(b, a)
    /\ \A c \in V: Compare(a, b) <= 0 /\ Compare(b, c) <= 0 => Compare(a, c) <= 0
    /\ \A c \in V: Compare(a, b) = 0 => Compare(a, c) = Compare(b, c)
Suffixes ==
    LET p == Split(a, 1, <<>>) IN
    (Len(p) > 0 /\ AllDigits(p[Len(p)])) =>
        /\ Compare(a \o RC \o <<57>>, a) = -1
        /\ Compare(a \o WB \o <<48>>, a) = 1
        /\ Compare(a \o RC \o <<57>>, a \o RC \o <<49, 48>>) = -1
        /\ Compare(a \o <<46, 48>>, a) = 0
        /\ Compare(a \o <<48>>, a) \in {0, 1}
Topics == TopicValid(Topic(a)) /\ (TopicValid(a) => Topic(a) = a) /\ Topic(Topic(b)) = Topic(b)
Rules == <<<<48, <<49, 46>>>>, <<49, <<49, 49>>>>>>
Stuffing == Unstuff(Stuff(a, Rules), Rules) = a /\ (\A i \in 1..Len(Stuff(a, Rules)): Stuff(a, Rules)[i] # 48)
=============================================================================
