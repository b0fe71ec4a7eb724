module mt
go 1.23
