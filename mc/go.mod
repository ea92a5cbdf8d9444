module verifmc

go 1.23
