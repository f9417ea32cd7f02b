---------------------------- MODULE CallPrograms ----------------------------
(* What a solve call does to the workspace of its object, by class of the call:
   writes and reads of fields, and callbacks into the user's problem. *)
EXTENDS Sequences
Fields == {"arguments", "variables", "candidate", "coefficients", "parameter", "trace", "durations"}
W(f) == <<"W", f>>
R(f) == <<"R", f>>
Callback == <<"C", "">>
Check == <<W("arguments"), R("arguments")>>
Setup == <<W("variables"), Callback, W("parameter"), W("trace"), W("durations")>>
Differentiate == <<R("variables"), Callback, W("coefficients")>>
Step == <<R("coefficients"), R("parameter"), W("candidate"), Callback, R("candidate"), W("variables"), W("parameter"), R("trace"), W("trace"),
          R("durations"), W("durations")>>
Report == <<R("variables"), R("trace"), R("durations")>>
NoParameter(s) == SelectSeq(s, LAMBDA o : o # W("parameter"))
\* what a call of the class does; rejected calls end early and report nothing
Prog(class) ==
  CASE class = "ok" -> Check \o Setup \o Differentiate \o Step \o Differentiate \o Step \o Report
    [] class = "idle" -> Check \o Setup \o Report                       \* no iteration budget
    [] class = "fail" -> Check \o Setup \o Differentiate \o <<R("coefficients"), R("parameter")>> \o Report
    [] class = "malformed" -> Check                                     \* exception before anything is used
    [] class = "unsupported" -> Check \o Setup \o <<R("variables")>>     \* exception in the first iteration
    [] class = "carried" -> Check \o NoParameter(Setup \o Differentiate \o Step) \o Report
    [] class = "throws" -> Check \o Setup \o Differentiate \o Step \o Differentiate \o Step   \* ends at one of its callbacks
=============================================================================
