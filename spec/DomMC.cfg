INIT Init
NEXT Next
VIEW View
INVARIANTS LinksInv ContentInv OwnersInv AttrsInv ValuesInv IdsInv MappingsInv DatasInv NamesInv KindsInv DocsInv LivesInv Emit
CHECK_DEADLOCK FALSE
