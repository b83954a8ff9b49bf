------------------------------ MODULE MC_Wire ------------------------------
(* Small constants for RfxCompose.                                          *)
EXTENDS RfxCompose
MCRects == {<<0, 0, 64, 64>>, <<1, 258, 65535, 3>>}
MCTables == {<<102, 102, 119, 136, 152>>, <<1, 2, 3, 4, 5>>}
MCPlaces == {<<0, 0>>, <<259, 3>>}
MCLens == {0, 1}
MCLens2 == {0, 3}
MCNumbers == {<<0, 0>>, <<1, 65535>>}
=============================================================================
