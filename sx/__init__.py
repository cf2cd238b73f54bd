"""SX: native-execution symbolic executor for Python string/structure code."""
