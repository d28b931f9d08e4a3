module verifengine

go 1.25.0
