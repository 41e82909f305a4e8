CONSTANT CfgOf <- TraceCfg
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Report
