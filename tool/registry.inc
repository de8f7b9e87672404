,{"nondet", runNondet}
,{"tokens", runTokens}
,{"status", runStatus}
,{"parsed", runParsed}
,{"kdtree", runKdTree}
,{"uninit", runUninit}
,{"grow", runGrow}
,{"extents", runExtents}
,{"spaces", runSpaces}
,{"options", runOptions}, {"caps", runCaps}
, {"release", runRelease}
, {"writers", runWriters}
, {"cover", runCover}
