TREE("F(M)", F(M))
TREE("F(C)", F(C))
TREE("F(N)", F(Some))
TREE("F(Q)", F(Quiet))
TREE("P", FwdPlus)
TREE("S(M,M)", S(M, M))
TREE("S(M,C)", S(M, C))
TREE("S(C,M)", S(C, M))
TREE("S(Q,M)", S(Quiet, M))
TREE("S(M,Q)", S(M, Quiet))
TREE("S(N,C)", S(Some, C))
TREE("S(M,N)", S(M, Some))
TREE("F(F(M))", F(F(M)))
TREE("F(S(M,M))", F(S(M, M)))
TREE("S(F(M),M)", S(F(M), M))
TREE("S(M,F(M))", S(M, F(M)))
TREE("S(P,C)", S(FwdPlus, C))
TREE("S(M,P)", S(M, FwdPlus))
TREE("F(P)", F(FwdPlus))
TREE("S(S(M,M),C)", S(S(M, M), C))
TREE("S(M,S(M,C))", S(M, S(M, C)))
TREE("S(S(M,M),S(M,M))", S(S(M, M), S(M, M)))
TREE("F(F(F(C)))", F(F(F(C))))
TREE("F(S(F(M),S(M,C)))", F(S(F(M), S(M, C))))
TREE("S(F(S(M,Q)),F(F(C)))", S(F(S(M, Quiet)), F(F(C))))
TREE("S(S(S(M,M),M),S(N,S(M,M)))", S(S(S(M, M), M), S(Some, S(M, M))))
TREE("S(F(F(M)),F(S(N,F(C))))", S(F(F(M)), F(S(Some, F(C)))))
