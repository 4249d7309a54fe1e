SPECIFICATION Spec
CONSTANTS MaxItems = 4
 MaxLabel = 1
 Modes = {1,2,3,4,5,6}
 FilterIds = {0}
 Thresholds = {0}
 DistIds = {2}
INVARIANTS Sound Complete NoDuplicate Thresholded PairsExact ScoreExact CsvExact NotStuck
CHECK_DEADLOCK FALSE
