module rewrite

go 1.24
