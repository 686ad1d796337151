X("C02", c02)
X("C03", c03)
X("C04", c04)
X("C06", c06)
X("C07", c07)
X("C08", c08)
X("C05", c05)
X("C10/path", c10_path)
X("C10/price", c10_price)
X("C13", c13)
X("C14", c14)
X("C11", c11)
X("C12", c12)
X("C22/path", c22_path)
X("C22/law", c22_law)
X("C23/mc", c23_mc)
X("C23/fdm", c23_fdm)
X("C23/quantile", c23_quantile)
X("C20", c20)
X("C21", c21)
X("C24", c24)
X("C26", c26)
X("C27", c27)
X("C28", c28)
