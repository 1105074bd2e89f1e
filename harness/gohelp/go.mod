module gohelp

go 1.23
