// AutoCAD colour index: entry i is the colour of index i + 1.
static const short ACI[255][3] = {
{255,0,0}, {255,255,0}, {0,255,0}, {0,255,255}, {0,0,255}, {255,0,255}, {255,255,255}, {255,255,255},
{255,255,255}, {255,9,0}, {255,128,128}, {166,0,0}, {166,83,83}, {128,0,0}, {128,64,64}, {77,0,0},
{77,38,38}, {38,0,0}, {38,19,19}, {255,64,0}, {255,160,128}, {166,42,0}, {166,104,83}, {128,32,0},
{128,80,64}, {77,19,0}, {77,48,38}, {38,10,0}, {38,24,19}, {256,128,0}, {256,192,0}, {166,83,0},
{166,125,83}, {128,64,0}, {128,96,64}, {77,38,0}, {77,58,38}, {38,19,0}, {38,29,19}, {255,192,0},
{255,224,128}, {166,125,0}, {166,146,83}, {128,96,0}, {128,112,64}, {77,58,0}, {77,67,38}, {38,29,0},
{38,34,19}, {255,255,0}, {255,255,128}, {166,166,0}, {166,166,83}, {128,128,0}, {128,128,64}, {77,77,0},
{77,77,38}, {38,38,0}, {38,38,19}, {192,255,0}, {224,255,128}, {125,166,0}, {146,166,83}, {96,128,0},
{112,128,64}, {58,77,0}, {67,77,38}, {29,38,0}, {34,38,19}, {128,255,0}, {192,255,128}, {83,166,0},
{125,166,83}, {64,128,0}, {96,128,64}, {38,77,0}, {58,77,38}, {19,38,0}, {29,38,19}, {64,255,0},
{160,255,128}, {42,160,0}, {104,160,80}, {32,128,0}, {80,128,64}, {19,77,0}, {48,77,38}, {10,38,0},
{24,38,19}, {0,255,0}, {128,255,128}, {0,166,0}, {83,166,83}, {0,128,0}, {64,128,64}, {0,77,0},
{38,77,38}, {0,38,0}, {19,38,19}, {0,255,64}, {128,255,160}, {0,166,42}, {83,166,118}, {0,128,32},
{64,128,80}, {0,77,19}, {38,77,48}, {0,38,10}, {19,38,24}, {0,255,128}, {128,255,192}, {0,166,83},
{83,166,125}, {0,128,64}, {64,128,96}, {0,77,38}, {38,77,58}, {0,38,19}, {19,38,29}, {0,255,192},
{128,255,224}, {0,166,125}, {83,166,146}, {0,128,96}, {64,128,112}, {0,77,58}, {38,77,67}, {0,38,29},
{19,38,34}, {0,255,255}, {128,255,255}, {0,166,166}, {83,166,166}, {0,128,128}, {64,128,128}, {0,77,77},
{38,77,77}, {0,38,38}, {19,38,38}, {0,192,255}, {128,224,255}, {0,125,166}, {83,146,166}, {0,96,128},
{64,112,128}, {0,58,77}, {38,67,77}, {0,29,38}, {19,34,38}, {0,128,255}, {128,192,255}, {0,83,166},
{83,125,166}, {0,64,128}, {64,96,128}, {0,38,77}, {38,58,77}, {0,19,38}, {19,29,38}, {0,64,255},
{128,160,255}, {0,42,166}, {83,104,166}, {0,32,128}, {64,80,128}, {0,19,77}, {38,48,77}, {0,10,38},
{19,24,38}, {0,0,255}, {128,128,255}, {0,0,166}, {83,83,166}, {0,0,128}, {64,64,128}, {0,0,77},
{38,38,77}, {0,0,38}, {19,19,38}, {64,0,255}, {160,128,255}, {42,0,166}, {104,83,166}, {32,0,128},
{80,64,128}, {19,0,77}, {48,38,77}, {10,0,38}, {24,19,38}, {128,0,255}, {192,128,255}, {83,0,166},
{125,83,166}, {64,0,128}, {96,64,128}, {38,0,77}, {58,38,77}, {19,0,38}, {29,19,38}, {192,0,255},
{224,128,255}, {125,0,166}, {146,83,166}, {96,0,128}, {112,64,128}, {58,0,77}, {67,38,77}, {29,0,38},
{34,19,38}, {255,0,255}, {255,128,255}, {166,0,166}, {166,83,166}, {128,0,128}, {128,64,128}, {77,0,77},
{77,38,77}, {38,0,38}, {38,19,38}, {255,0,192}, {255,128,224}, {166,0,125}, {166,83,146}, {128,0,96},
{128,64,112}, {77,0,58}, {77,38,67}, {38,0,29}, {38,19,34}, {255,0,128}, {255,128,192}, {166,0,83},
{166,83,125}, {128,0,64}, {128,64,96}, {77,0,38}, {77,38,58}, {38,0,19}, {38,19,29}, {255,0,64},
{255,128,160}, {166,0,42}, {166,83,104}, {128,0,32}, {128,64,80}, {77,0,19}, {77,38,48}, {38,0,10},
{38,19,24}, {84,84,84}, {119,119,119}, {153,153,153}, {187,187,187}, {222,222,222}, {255,255,255} 

};
