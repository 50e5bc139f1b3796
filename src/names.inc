{AliceBlue, 0xFFF0F8FFu, "AliceBlue"},
{AntiqueWhite, 0xFFFAEBD7u, "AntiqueWhite"},
{Aqua, 0xFF00FFFFu, "Aqua"},
{Aquamarine, 0xFF7FFFD4u, "Aquamarine"},
{Azure, 0xFFF0FFFFu, "Azure"},
{Beige, 0xFFF5F5DCu, "Beige"},
{Bisque, 0xFFFFE4C4u, "Bisque"},
{Black, 0xFF000000u, "Black"},
{BlanchedAlmond, 0xFFFFEBCDu, "BlanchedAlmond"},
{Blue, 0xFF0000FFu, "Blue"},
{BlueViolet, 0xFF8A2BE2u, "BlueViolet"},
{Brown, 0xFFA52A2Au, "Brown"},
{BurlyWood, 0xFFDEB887u, "BurlyWood"},
{CadetBlue, 0xFF5F9EA0u, "CadetBlue"},
{Chartreuse, 0xFF7FFF00u, "Chartreuse"},
{Chocolate, 0xFFD2691Eu, "Chocolate"},
{Coral, 0xFFFF7F50u, "Coral"},
{CornflowerBlue, 0xFF6495EDu, "CornflowerBlue"},
{Cornsilk, 0xFFFFF8DCu, "Cornsilk"},
{Crimson, 0xFFDC143Cu, "Crimson"},
{Cyan, 0xFF00FFFFu, "Cyan"},
{DarkBlue, 0xFF00008Bu, "DarkBlue"},
{DarkCyan, 0xFF008B8Bu, "DarkCyan"},
{DarkGoldenrod, 0xFFB8860Bu, "DarkGoldenrod"},
{DarkGray, 0xFFA9A9A9u, "DarkGray"},
{DarkGreen, 0xFF006400u, "DarkGreen"},
{DarkKhaki, 0xFFBDB76Bu, "DarkKhaki"},
{DarkMagenta, 0xFF8B008Bu, "DarkMagenta"},
{DarkOliveGreen, 0xFF556B2Fu, "DarkOliveGreen"},
{DarkOrange, 0xFFFF8C00u, "DarkOrange"},
{DarkOrchid, 0xFF9932CCu, "DarkOrchid"},
{DarkRed, 0xFF8B0000u, "DarkRed"},
{DarkSalmon, 0xFFE9967Au, "DarkSalmon"},
{DarkSeaGreen, 0xFF8FBC8Fu, "DarkSeaGreen"},
{DarkSlateBlue, 0xFF483D8Bu, "DarkSlateBlue"},
{DarkSlateGray, 0xFF2F4F4Fu, "DarkSlateGray"},
{DarkTurquoise, 0xFF00CED1u, "DarkTurquoise"},
{DarkViolet, 0xFF9400D3u, "DarkViolet"},
{DeepPink, 0xFFFF1493u, "DeepPink"},
{DeepSkyBlue, 0xFF00BFFFu, "DeepSkyBlue"},
{DimGray, 0xFF696969u, "DimGray"},
{DodgerBlue, 0xFF1E90FFu, "DodgerBlue"},
{Firebrick, 0xFFB22222u, "Firebrick"},
{FloralWhite, 0xFFFFFAF0u, "FloralWhite"},
{ForestGreen, 0xFF228B22u, "ForestGreen"},
{Fuchsia, 0xFFFF00FFu, "Fuchsia"},
{Gainsboro, 0xFFDCDCDCu, "Gainsboro"},
{GhostWhite, 0xFFF8F8FFu, "GhostWhite"},
{Gold, 0xFFFFD700u, "Gold"},
{Goldenrod, 0xFFDAA520u, "Goldenrod"},
{Gray, 0xFF808080u, "Gray"},
{Green, 0xFF008000u, "Green"},
{GreenYellow, 0xFFADFF2Fu, "GreenYellow"},
{Honeydew, 0xFFF0FFF0u, "Honeydew"},
{HotPink, 0xFFFF69B4u, "HotPink"},
{IndianRed, 0xFFCD5C5Cu, "IndianRed"},
{Indigo, 0xFF4B0082u, "Indigo"},
{Ivory, 0xFFFFFFF0u, "Ivory"},
{Khaki, 0xFFF0E68Cu, "Khaki"},
{Lavender, 0xFFE6E6FAu, "Lavender"},
{LavenderBlush, 0xFFFFF0F5u, "LavenderBlush"},
{LawnGreen, 0xFF7CFC00u, "LawnGreen"},
{LemonChiffon, 0xFFFFFACDu, "LemonChiffon"},
{LightBlue, 0xFFADD8E6u, "LightBlue"},
{LightCoral, 0xFFF08080u, "LightCoral"},
{LightCyan, 0xFFE0FFFFu, "LightCyan"},
{LightGoldenrodYellow, 0xFFFAFAD2u, "LightGoldenrodYellow"},
{LightGreen, 0xFF90EE90u, "LightGreen"},
{LightGray, 0xFFD3D3D3u, "LightGray"},
{LightPink, 0xFFFFB6C1u, "LightPink"},
{LightSalmon, 0xFFFFA07Au, "LightSalmon"},
{LightSeaGreen, 0xFF20B2AAu, "LightSeaGreen"},
{LightSkyBlue, 0xFF87CEFAu, "LightSkyBlue"},
{LightSlateGray, 0xFF778899u, "LightSlateGray"},
{LightSteelBlue, 0xFFB0C4DEu, "LightSteelBlue"},
{LightYellow, 0xFFFFFFE0u, "LightYellow"},
{Lime, 0xFF00FF00u, "Lime"},
{LimeGreen, 0xFF32CD32u, "LimeGreen"},
{Linen, 0xFFFAF0E6u, "Linen"},
{Magenta, 0xFFFF00FFu, "Magenta"},
{Maroon, 0xFF800000u, "Maroon"},
{MediumAquamarine, 0xFF66CDAAu, "MediumAquamarine"},
{MediumBlue, 0xFF0000CDu, "MediumBlue"},
{MediumOrchid, 0xFFBA55D3u, "MediumOrchid"},
{MediumPurple, 0xFF9370DBu, "MediumPurple"},
{MediumSeaGreen, 0xFF3CB371u, "MediumSeaGreen"},
{MediumSlateBlue, 0xFF7B68EEu, "MediumSlateBlue"},
{MediumSpringGreen, 0xFF00FA9Au, "MediumSpringGreen"},
{MediumTurquoise, 0xFF48D1CCu, "MediumTurquoise"},
{MediumVioletRed, 0xFFC71585u, "MediumVioletRed"},
{MidnightBlue, 0xFF191970u, "MidnightBlue"},
{MintCream, 0xFFF5FFFAu, "MintCream"},
{MistyRose, 0xFFFFE4E1u, "MistyRose"},
{Moccasin, 0xFFFFE4B5u, "Moccasin"},
{NavajoWhite, 0xFFFFDEADu, "NavajoWhite"},
{Navy, 0xFF000080u, "Navy"},
{OldLace, 0xFFFDF5E6u, "OldLace"},
{Olive, 0xFF808000u, "Olive"},
{OliveDrab, 0xFF6B8E23u, "OliveDrab"},
{Orange, 0xFFFFA500u, "Orange"},
{OrangeRed, 0xFFFF4500u, "OrangeRed"},
{Orchid, 0xFFDA70D6u, "Orchid"},
{PaleGoldenrod, 0xFFEEE8AAu, "PaleGoldenrod"},
{PaleGreen, 0xFF98FB98u, "PaleGreen"},
{PaleTurquoise, 0xFFAFEEEEu, "PaleTurquoise"},
{PaleVioletRed, 0xFFDB7093u, "PaleVioletRed"},
{PapayaWhip, 0xFFFFEFD5u, "PapayaWhip"},
{PeachPuff, 0xFFFFDAB9u, "PeachPuff"},
{Peru, 0xFFCD853Fu, "Peru"},
{Pink, 0xFFFFC0CBu, "Pink"},
{Plum, 0xFFDDA0DDu, "Plum"},
{PowderBlue, 0xFFB0E0E6u, "PowderBlue"},
{Purple, 0xFF800080u, "Purple"},
{Red, 0xFFFF0000u, "Red"},
{RosyBrown, 0xFFBC8F8Fu, "RosyBrown"},
{RoyalBlue, 0xFF4169E1u, "RoyalBlue"},
{SaddleBrown, 0xFF8B4513u, "SaddleBrown"},
{Salmon, 0xFFFA8072u, "Salmon"},
{SandyBrown, 0xFFF4A460u, "SandyBrown"},
{SeaGreen, 0xFF2E8B57u, "SeaGreen"},
{SeaShell, 0xFFFFF5EEu, "SeaShell"},
{Sienna, 0xFFA0522Du, "Sienna"},
{Silver, 0xFFC0C0C0u, "Silver"},
{SkyBlue, 0xFF87CEEBu, "SkyBlue"},
{SlateBlue, 0xFF6A5ACDu, "SlateBlue"},
{SlateGray, 0xFF708090u, "SlateGray"},
{Snow, 0xFFFFFAFAu, "Snow"},
{SpringGreen, 0xFF00FF7Fu, "SpringGreen"},
{SteelBlue, 0xFF4682B4u, "SteelBlue"},
{Tan, 0xFFD2B48Cu, "Tan"},
{Teal, 0xFF008080u, "Teal"},
{Thistle, 0xFFD8BFD8u, "Thistle"},
{Tomato, 0xFFFF6347u, "Tomato"},
{Transparent, 0x00FFFFFFu, "Transparent"},
{Turquoise, 0xFF40E0D0u, "Turquoise"},
{Violet, 0xFFEE82EEu, "Violet"},
{Wheat, 0xFFF5DEB3u, "Wheat"},
{White, 0xFFFFFFFFu, "White"},
{WhiteSmoke, 0xFFF5F5F5u, "WhiteSmoke"},
{Yellow, 0xFFFFFF00u, "Yellow"},
{YellowGreen, 0xFF9ACD32u, "YellowGreen"}
