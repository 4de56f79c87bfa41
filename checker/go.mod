module checker

go 1.21
