SPECIFICATION Spec
VIEW View
PROPERTY Fresh
CHECK_DEADLOCK FALSE
