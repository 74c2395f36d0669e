    {"aliceblue", um2::aliceblue, {240, 248, 255}},
    {"antiquewhite", um2::antiquewhite, {250, 235, 215}},
    {"aqua", um2::aqua, {0, 255, 255}},
    {"aquamarine", um2::aquamarine, {127, 255, 212}},
    {"azure", um2::azure, {240, 255, 255}},
    {"beige", um2::beige, {245, 245, 220}},
    {"bisque", um2::bisque, {255, 228, 196}},
    {"black", um2::black, {0, 0, 0}},
    {"blanchedalmond", um2::blanchedalmond, {255, 235, 205}},
    {"blue", um2::blue, {0, 0, 255}},
    {"blueviolet", um2::blueviolet, {138, 43, 226}},
    {"brown", um2::brown, {165, 42, 42}},
    {"burlywood", um2::burlywood, {222, 184, 135}},
    {"cadetblue", um2::cadetblue, {95, 158, 160}},
    {"chartreuse", um2::chartreuse, {127, 255, 0}},
    {"chocolate", um2::chocolate, {210, 105, 30}},
    {"coral", um2::coral, {255, 127, 80}},
    {"cornflowerblue", um2::cornflowerblue, {100, 149, 237}},
    {"cornsilk", um2::cornsilk, {255, 248, 220}},
    {"crimson", um2::crimson, {220, 20, 60}},
    {"cyan", um2::cyan, {0, 255, 255}},
    {"darkblue", um2::darkblue, {0, 0, 139}},
    {"darkcyan", um2::darkcyan, {0, 139, 139}},
    {"darkgoldenrod", um2::darkgoldenrod, {184, 134, 11}},
    {"darkgray", um2::darkgray, {169, 169, 169}},
    {"darkgreen", um2::darkgreen, {0, 100, 0}},
    {"darkgrey", um2::darkgrey, {169, 169, 169}},
    {"darkkhaki", um2::darkkhaki, {189, 183, 107}},
    {"darkmagenta", um2::darkmagenta, {139, 0, 139}},
    {"darkolivegreen", um2::darkolivegreen, {85, 107, 47}},
    {"darkorange", um2::darkorange, {255, 140, 0}},
    {"darkorchid", um2::darkorchid, {153, 50, 204}},
    {"darkred", um2::darkred, {139, 0, 0}},
    {"darksalmon", um2::darksalmon, {233, 150, 122}},
    {"darkseagreen", um2::darkseagreen, {143, 188, 143}},
    {"darkslateblue", um2::darkslateblue, {72, 61, 139}},
    {"darkslategray", um2::darkslategray, {47, 79, 79}},
    {"darkslategrey", um2::darkslategrey, {47, 79, 79}},
    {"darkturquoise", um2::darkturquoise, {0, 206, 209}},
    {"darkviolet", um2::darkviolet, {148, 0, 211}},
    {"deeppink", um2::deeppink, {255, 20, 147}},
    {"deepskyblue", um2::deepskyblue, {0, 191, 255}},
    {"dimgray", um2::dimgray, {105, 105, 105}},
    {"dimgrey", um2::dimgrey, {105, 105, 105}},
    {"dodgerblue", um2::dodgerblue, {30, 144, 255}},
    {"firebrick", um2::firebrick, {178, 34, 34}},
    {"floralwhite", um2::floralwhite, {255, 250, 240}},
    {"forestgreen", um2::forestgreen, {34, 139, 34}},
    {"fuchsia", um2::fuchsia, {255, 0, 255}},
    {"gainsboro", um2::gainsboro, {220, 220, 220}},
    {"ghostwhite", um2::ghostwhite, {248, 248, 255}},
    {"gold", um2::gold, {255, 215, 0}},
    {"goldenrod", um2::goldenrod, {218, 165, 32}},
    {"gray", um2::gray, {128, 128, 128}},
    {"green", um2::green, {0, 128, 0}},
    {"greenyellow", um2::greenyellow, {173, 255, 47}},
    {"grey", um2::grey, {128, 128, 128}},
    {"honeydew", um2::honeydew, {240, 255, 240}},
    {"hotpink", um2::hotpink, {255, 105, 180}},
    {"indianred", um2::indianred, {205, 92, 92}},
    {"indigo", um2::indigo, {75, 0, 130}},
    {"ivory", um2::ivory, {255, 255, 240}},
    {"khaki", um2::khaki, {240, 230, 140}},
    {"lavender", um2::lavender, {230, 230, 250}},
    {"lavenderblush", um2::lavenderblush, {255, 240, 245}},
    {"lawngreen", um2::lawngreen, {124, 252, 0}},
    {"lemonchiffon", um2::lemonchiffon, {255, 250, 205}},
    {"lightblue", um2::lightblue, {173, 216, 230}},
    {"lightcoral", um2::lightcoral, {240, 128, 128}},
    {"lightcyan", um2::lightcyan, {224, 255, 255}},
    {"lightgoldenrodyellow", um2::lightgoldenrodyellow, {250, 250, 210}},
    {"lightgray", um2::lightgray, {211, 211, 211}},
    {"lightgreen", um2::lightgreen, {144, 238, 144}},
    {"lightgrey", um2::lightgrey, {211, 211, 211}},
    {"lightpink", um2::lightpink, {255, 182, 193}},
    {"lightsalmon", um2::lightsalmon, {255, 160, 122}},
    {"lightseagreen", um2::lightseagreen, {32, 178, 170}},
    {"lightskyblue", um2::lightskyblue, {135, 206, 250}},
    {"lightslategray", um2::lightslategray, {119, 136, 153}},
    {"lightslategrey", um2::lightslategrey, {119, 136, 153}},
    {"lightsteelblue", um2::lightsteelblue, {176, 196, 222}},
    {"lightyellow", um2::lightyellow, {255, 255, 224}},
    {"lime", um2::lime, {0, 255, 0}},
    {"limegreen", um2::limegreen, {50, 205, 50}},
    {"linen", um2::linen, {250, 240, 230}},
    {"magenta", um2::magenta, {255, 0, 255}},
    {"maroon", um2::maroon, {128, 0, 0}},
    {"mediumaquamarine", um2::mediumaquamarine, {102, 205, 170}},
    {"mediumblue", um2::mediumblue, {0, 0, 205}},
    {"mediumorchid", um2::mediumorchid, {186, 85, 211}},
    {"mediumpurple", um2::mediumpurple, {147, 112, 219}},
    {"mediumseagreen", um2::mediumseagreen, {60, 179, 113}},
    {"mediumslateblue", um2::mediumslateblue, {123, 104, 238}},
    {"mediumspringgreen", um2::mediumspringgreen, {0, 250, 154}},
    {"mediumturquoise", um2::mediumturquoise, {72, 209, 204}},
    {"mediumvioletred", um2::mediumvioletred, {199, 21, 133}},
    {"midnightblue", um2::midnightblue, {25, 25, 112}},
    {"mintcream", um2::mintcream, {245, 255, 250}},
    {"mistyrose", um2::mistyrose, {255, 228, 225}},
    {"moccasin", um2::moccasin, {255, 228, 181}},
    {"navajowhite", um2::navajowhite, {255, 222, 173}},
    {"navy", um2::navy, {0, 0, 128}},
    {"oldlace", um2::oldlace, {253, 245, 230}},
    {"olive", um2::olive, {128, 128, 0}},
    {"olivedrab", um2::olivedrab, {107, 142, 35}},
    {"orange", um2::orange, {255, 165, 0}},
    {"orangered", um2::orangered, {255, 69, 0}},
    {"orchid", um2::orchid, {218, 112, 214}},
    {"palegoldenrod", um2::palegoldenrod, {238, 232, 170}},
    {"palegreen", um2::palegreen, {152, 251, 152}},
    {"paleturquoise", um2::paleturquoise, {175, 238, 238}},
    {"palevioletred", um2::palevioletred, {219, 112, 147}},
    {"papayawhip", um2::papayawhip, {255, 239, 213}},
    {"peachpuff", um2::peachpuff, {255, 218, 185}},
    {"peru", um2::peru, {205, 133, 63}},
    {"pink", um2::pink, {255, 192, 203}},
    {"plum", um2::plum, {221, 160, 221}},
    {"powderblue", um2::powderblue, {176, 224, 230}},
    {"purple", um2::purple, {128, 0, 128}},
    {"red", um2::red, {255, 0, 0}},
    {"rosybrown", um2::rosybrown, {188, 143, 143}},
    {"royalblue", um2::royalblue, {65, 105, 225}},
    {"saddlebrown", um2::saddlebrown, {139, 69, 19}},
    {"salmon", um2::salmon, {250, 128, 114}},
    {"sandybrown", um2::sandybrown, {244, 164, 96}},
    {"seagreen", um2::seagreen, {46, 139, 87}},
    {"seashell", um2::seashell, {255, 245, 238}},
    {"sienna", um2::sienna, {160, 82, 45}},
    {"silver", um2::silver, {192, 192, 192}},
    {"skyblue", um2::skyblue, {135, 206, 235}},
    {"slateblue", um2::slateblue, {106, 90, 205}},
    {"slategray", um2::slategray, {112, 128, 144}},
    {"slategrey", um2::slategrey, {112, 128, 144}},
    {"snow", um2::snow, {255, 250, 250}},
    {"springgreen", um2::springgreen, {0, 255, 127}},
    {"steelblue", um2::steelblue, {70, 130, 180}},
    {"tan", um2::tan, {210, 180, 140}},
    {"teal", um2::teal, {0, 128, 128}},
    {"thistle", um2::thistle, {216, 191, 216}},
    {"tomato", um2::tomato, {255, 99, 71}},
    {"turquoise", um2::turquoise, {64, 224, 208}},
    {"violet", um2::violet, {238, 130, 238}},
    {"wheat", um2::wheat, {245, 222, 179}},
    {"white", um2::white, {255, 255, 255}},
    {"whitesmoke", um2::whitesmoke, {245, 245, 245}},
    {"yellow", um2::yellow, {255, 255, 0}},
    {"yellowgreen", um2::yellowgreen, {154, 205, 50}},
