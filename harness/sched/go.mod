module verifsched

go 1.24
