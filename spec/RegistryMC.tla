------------------------------ MODULE RegistryMC ------------------------------
\* A small instance of Registry: the names a, A, aB, Ab, ä and Ä.
EXTENDS Registry
NamesMC == {<<97>>, <<65>>, <<97, 66>>, <<65, 98>>, <<228>>, <<196>>}
===============================================================================
