module simgen

go 1.24
