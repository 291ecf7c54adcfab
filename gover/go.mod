module gover

go 1.24
