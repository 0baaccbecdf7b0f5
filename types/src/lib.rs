// The cases are generated by tools/cases.py and compiled one file at a time against mdarray.
