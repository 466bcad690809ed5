---------------------------- MODULE MC_Workflow ----------------------------
EXTENDS Workflow
McReqs == {<<"a">>, <<"b", "a">>, <<"eff", "b">>}
McReqsT == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"eff", "b">>, <<"a", "eff", "b">>}
=============================================================================
