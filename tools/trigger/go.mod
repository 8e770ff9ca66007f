module trigger

go 1.23
