mkcfg () 
{ 
    cat > $1MC.cfg <<X
INIT MCInit
NEXT MCNext
CONSTANT Depth = $2
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS $3
${4:+PROPERTIES $4}
X

}
