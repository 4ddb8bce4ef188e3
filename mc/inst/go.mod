module inst

go 1.24
