module genre

go 1.23
