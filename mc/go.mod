module mc

go 1.24

require github.com/zellyn/diskii v0.0.0

replace github.com/zellyn/diskii => /repo
