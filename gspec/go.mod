module gspec

go 1.23
