package props

// counts holds the quick and thorough case counts of the sampled parts, as
// measured by tools/tune.py; a part that is not listed keeps its own.
var counts = map[string][2]int{
	"C01/lookup":     {250000, 6900000},
	"C01/getall":     {210000, 6300000},
	"C02/reads":      {54000, 1200000},
	"C02/edits":      {35000, 760000},
	"C02/codes":      {67000, 1500000},
	"C03/possible":   {280000, 8900000},
	"C03/mixed":      {320000, 10000000},
	"C04/possible":   {300000, 8900000},
	"C04/mixed":      {360000, 11000000},
	"C05/possible":   {170000, 5200000},
	"C05/mixed":      {210000, 6700000},
	"C05/nil":        {190000, 6600000},
	"C06/possible":   {270000, 8400000},
	"C06/mixed":      {320000, 10000000},
	"C07/possible":   {330000, 10000000},
	"C07/mixed":      {350000, 11000000},
	"C08/possible":   {310000, 9100000},
	"C08/mixed":      {360000, 10000000},
	"C09/free":       {180000, 1600000},
	"C09/jo":         {180000, 1700000},
	"C10/impossible": {16000, 500000},
	"C10/values":     {48000, 1500000},
	"C10/history":    {6400, 180000},
	"C11/buffers":    {8400, 240000},
	"C11/retained":   {66000, 410000},
	"C11/schemes":    {600000, 20000000},
	"C11/builders":   {600000, 20000000},
	"C12/concurrent": {11000, 380000},
	"C12/reentrant":  {87000, 2600000},
	"C13/typed":      {560000, 15000000},
	"C13/strings":    {140000, 4100000},
	"C13/numbers":    {44000, 1300000},
	"C14/one":        {370000, 10000000},
	"C14/all":        {54000, 1800000},
	"C15/one":        {190000, 5600000},
	"C15/all":        {45000, 1200000},
	"C16/random":     {190000, 4500000},
	"C16/repeated":   {400000, 10000000},
	"C17/random":     {110000, 3400000},
	"C17/repeated":   {400000, 10000000},
	"C18/random":     {210000, 6000000},
	"C18/lookalikes": {600000, 20000000},
	"C19/random":     {170000, 4600000},
	"C20/random":     {170000, 4900000},
	"C20/repeated":   {600000, 19000000},
	"C21/history":    {71000, 620000},
	"C22/random":     {95000, 2600000},
	"C22/edited":     {53000, 560000},
	"C22/repeated":   {460000, 11000000},
	"C23/wellformed": {52000, 380000},
	"C23/damaged":    {63000, 800000},
	"C23/files":      {30000, 880000},
	"C24/random":     {310000, 9200000},
	"C24/respaced":   {600000, 20000000},
	"C24/repeated":   {600000, 20000000},
	"C25/random":     {290000, 8400000},
	"C25/respaced":   {600000, 20000000},
	"C25/repeated":   {600000, 20000000},
	"C26/build":      {2000000, 20000000},
	"C27/history":    {1500000, 15000000},
	"C27/repeated":   {1500000, 20000000},
	"C28/random":     {400000, 5100000},
	"C29/soup":       {100000, 2000000},
	"C29/damaged":    {88000, 1800000},
	"C29/history":    {120000, 2500000},
	"C29/deep":       {370, 11000},
	"C30/damaged":    {300000, 7600000},
	"C30/soup":       {360000, 8900000},
	"C30/wellformed": {350000, 7300000},
}
