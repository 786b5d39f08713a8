module vstinstr

go 1.24
