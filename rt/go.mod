module vstrt

go 1.24
