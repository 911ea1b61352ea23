------------------------------ MODULE MCReload ------------------------------
EXTENDS CkubeReload
=============================================================================
