------------------------------ MODULE MCWatch ------------------------------
EXTENDS CkubeWatch
=============================================================================
