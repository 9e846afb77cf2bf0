module overlay

go 1.23
