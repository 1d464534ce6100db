module github.com/go-air/dupi/zz_verif
go 1.21
