------------------------------- MODULE MCIMH -------------------------------
EXTENDS IMH
MCTabs == { << <<0, 0-1, 0-2>>, <<0-1, 0-2, 0-1>> >>,
            << <<0, NI, 0-3>>, <<0-2, 0-1, 0>> >>,
            << <<0-2, 0-2>>, <<0, 0-1>> >> }
=============================================================================
